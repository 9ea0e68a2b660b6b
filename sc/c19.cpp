// C19: async generators hand over each value once across suspensions
#include "hd.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/task.h>
#include <optional>
using namespace h;
namespace {
	struct val {
		long v;
		int copies = 0, moves = 0;
		explicit val(long x) : v(x) {}
		val(const val& o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
		val(val&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1000000; }
	};
	enum kind { y_local, y_temp, y_keep, hopping, ready, tasks, inner, guarded, boom, ret };
	struct step {
		kind k;
		int a, b;
	};
	struct plan {
		std::vector<step> steps;
	};
	struct stream { // one generator with its consumer
		std::vector<plan> plans;
		std::vector<long> want;
		bool escapes = false;
		long error = 0;
		std::vector<pump*> p;
		mon<int> requested, running, locals, frames, answered, over;
		mon<const void*> addr;
		data baton; // handed back and forth: every access races unless ordered by the hand over
		bool mutate = false;
		~stream() {
			vrt_ignore i;
			std::vector<plan>().swap(plans);
			std::vector<long>().swap(want);
		}
		pump* any() { return p.empty() ? nullptr : p[rnd(p.size())]; }
		void in_body() { CHECK(requested.get() == 1, "the body runs although nothing was requested"); }
		// expected values of plan id; false: an exception escapes
		bool model(int id, std::vector<long>& out) {
			for (size_t i = 0; i < plans[id].steps.size(); i++) {
				auto& s = plans[id].steps[i];
				long x = id * 1000 + (long)i;
				switch (s.k) {
				case y_local:
				case y_temp: out.push_back(x); break;
				case y_keep: out.push_back(-id - 1); break;
				case inner:
					if (!model(s.a, out)) return false;
					break;
				case guarded: model(s.a, out); break;
				case boom: error = x; return false;
				case ret: return true;
				default: break;
				}
			}
			return true;
		}
		int make(int depth) {
			int id = (int)plans.size();
			plans.emplace_back();
			std::vector<step> v;
			int n = depth ? (int)rnd(5) : (int)rnd(8);
			for (int i = 0; i < n; i++) {
				step s{y_local, (int)rnd(3), (int)rnd(4)};
				switch (rnd(16)) {
				case 0:
				case 1:
				case 2: s.k = y_local; break;
				case 3:
				case 4: s.k = y_temp; break;
				case 5:
				case 6: s.k = y_keep; break;
				case 7:
				case 8: s.k = hopping; break;
				case 9: s.k = ready; break;
				case 10: s.k = tasks; break;
				case 11:
				case 12:
					if (depth < 2) s = {inner, make(depth + 1), 0};
					break;
				case 13:
					if (depth < 2) s = {guarded, make(depth + 1), 0};
					break;
				case 14:
					if (coin()) s.k = boom;
					break;
				case 15:
					if (coin(3)) s.k = ret;
					break;
				}
				v.push_back(s);
			}
			plans[id].steps = std::move(v);
			return id;
		}
	};
	struct local {
		stream* s;
		tracked t;
		explicit local(stream* x) : s(x), t(9) { s->locals.add(1); }
		local(const local&) = delete;
		~local() {
			CHECK(t.get() == 9, "local of the body damaged");
			s->locals.add(-1);
		}
	};
	struct param {
		stream* s;
		tracked t;
		bool active = true;
		param(stream* x, int id) : s(x), t(id) { s->frames.add(1); }
		param(param&& o) noexcept : s(o.s), t(std::move(o.t)), active(std::exchange(o.active, false)) {}
		~param() {
			if (active) s->frames.add(-1);
		}
	};
	asyncpp::task<int> work(stream* s, int n) {
		for (int i = 0; i < n; i++) co_await hop{s->any()};
		co_return n;
	}
	struct running_guard { // two threads inside the body at once?
		stream* s;
	};
	template<class G>
	asyncpp::async_generator<G> body(stream* s, int id, param pa) {
		s->in_body();
		s->baton.write(id);
		local l0(s);
		val keep(-id - 1);
		size_t n = s->plans[id].steps.size();
		for (size_t i = 0; i < n; i++) {
			step st = s->plans[id].steps[i];
			long x = id * 1000 + (long)i;
			CHECK(pa.t.get() == id, "parameter damaged");
			switch (st.k) {
			case y_local: {
				val v(x);
				local l(s);
				s->addr.set(&v);
				s->baton.write(x);
				co_yield v;
				s->in_body();
				CHECK(v.copies == 0 && v.moves == 0, "yielded local was copied or moved");
				CHECK(v.v == x + s->mutate, "the change made by the consumer is lost");
				s->baton.write(x);
				break;
			}
			case y_temp:
				s->addr.set(nullptr);
				s->baton.write(x);
				co_yield val(x);
				s->in_body();
				s->baton.write(x);
				break;
			case y_keep:
				s->addr.set(&keep);
				s->baton.write(x);
				keep.v = -id - 1;
				co_yield keep;
				s->in_body();
				s->baton.write(x);
				break;
			case hopping:
				for (int k = 0; k < st.a; k++) {
					co_await hop{s->any()};
					s->in_body();
					s->baton.write(x);
				}
				break;
			case ready: co_await std::suspend_never{}; break;
			case tasks: {
				int r = co_await work(s, st.b);
				CHECK(r == st.b, "task inside a generator delivered %d", r);
				s->in_body();
				s->baton.write(x);
				break;
			}
			case inner: {
				asyncpp::async_generator<G> g = body<G>(s, st.a, param(s, st.a));
				for (auto it = co_await g.begin(); it != g.end();) {
					s->in_body();
					s->baton.write(x);
					co_yield *it;
					s->in_body();
					s->baton.write(x);
					co_await ++it;
				}
				break;
			}
			case guarded:
				try {
					asyncpp::async_generator<G> g = body<G>(s, st.a, param(s, st.a));
					local l(s);
					for (auto it = co_await g.begin(); it != g.end();) {
						co_yield *it;
						s->in_body();
						co_await ++it;
					}
				} catch (const trivial_error& e) { s->in_body(); }
				break;
			case boom: throw trivial_error{(int)x};
			case ret: s->baton.write(-2); co_return;
			}
		}
		s->baton.write(-1);
	}
	// requests need not all come from one coroutine
	template<class I>
	asyncpp::task<int> advance(stream* s, I* it, tracked t) {
		if (coin()) co_await hop{s->any()};
		co_await ++*it;
		CHECK(t.get() == 4, "parameter damaged");
		if (coin()) co_await hop{s->any()};
		co_return 3;
	}
	template<class G>
	co consume(stream* s, asyncpp::async_generator<G> g, size_t stop, bool shuffle) {
		asyncpp::async_generator<G> holder;
		size_t got = 0;
		bool threw = false, ended = false;
		if (stop > 0 || coin()) {
			auto request = [s]() {
				CHECK(s->requested.add(1) == 0, "request while another one runs");
				s->baton.write(7);
			};
			auto answered = [s]() {
				CHECK(s->requested.add(-1) == 1, "the consumer was resumed twice");
				s->baton.write(8);
			};
			auto it = g.end();
			try {
				request();
				it = co_await g.begin();
				answered();
				while (true) {
					CHECK((it == g.end()) == !(it != g.end()), "comparisons disagree");
					if (it == g.end()) {
						ended = true;
						break;
					}
					bool ok;
					{
						vrt_ignore i;
						ok = got < s->want.size() && (*it).v == s->want[got];
					}
					CHECK(ok, "value %zu is %ld", got, (*it).v);
					auto& v = *it;
					CHECK(v.copies == 0 && v.moves == 0, "value copied %d and moved %d times", v.copies, v.moves);
					CHECK(s->addr.get() == nullptr || s->addr.get() == &v, "value is not the yielded object");
					if constexpr (!std::is_const_v<G>)
						if (s->mutate) v.v++;
					got++;
					if (got >= stop) break;
					if (shuffle && coin(4)) { // the iterator stays usable while the generator is moved
						if (coin()) swap(holder, g);
						else holder = std::move(g);
						if (coin()) g.swap(holder);
						else {
							asyncpp::async_generator<G> tmp(std::move(holder));
							g = std::move(tmp);
						}
					}
					if (coin(3)) co_await hop{s->any()};
					request();
					if (coin(4)) {
						int three = co_await advance(s, &it, tracked(4));
						CHECK(three == 3, "task delivered %d", three);
						answered();
					} else {
						auto& r = co_await ++it;
						answered();
						CHECK(&r == &it, "++ delivers another iterator");
					}
				}
			} catch (const trivial_error& e) {
				answered();
				threw = true;
				CHECK(s->escapes && e.v == s->error, "exception %d from the generator", e.v);
				CHECK(it == g.end(), "iterator is not at the end after an exception");
			}
			if (threw || ended) {
				bool all;
				{
					vrt_ignore i;
					all = got == s->want.size();
				}
				CHECK(all, "%s after %zu values", threw ? "exception" : "end", got);
				CHECK(ended == !s->escapes, "the exception of the body was lost");
				CHECK(s->locals.get() == 0, "%d locals of the finished body are alive", s->locals.get());
			}
		}
		if (coin()) co_await hop{s->any()};
		if (coin()) {
			asyncpp::async_generator<G> tmp;
			g = std::move(tmp);
		} else {
			asyncpp::async_generator<G> dead(std::move(g));
		}
		CHECK(s->locals.get() == 0 && s->frames.get() == 0, "%d locals and %d parameters of a destroyed generator are alive", s->locals.get(), s->frames.get());
		vrt_count("values", got);
		vrt_count(threw ? "ended_by_exception" : ended ? "exhausted" : "abandoned", 1);
		s->over.add(1);
	}
	template<class G>
	void programs() {
		reset_globals();
		{
			std::vector<std::unique_ptr<pump>> p;
			std::vector<std::unique_ptr<stream>> s;
			int np = (int)rnd(4), ns = 1 + (int)rnd(2);
			for (int i = 0; i < np; i++) p.push_back(std::make_unique<pump>(1 + (int)rnd(2)));
			size_t values = 0;
			for (int i = 0; i < ns; i++) {
				s.push_back(std::make_unique<stream>());
				vrt_ignore ig;
				auto& x = *s.back();
				for (auto& q : p) x.p.push_back(q.get());
				int root = x.make(0);
				x.mutate = !std::is_const_v<G> && coin();
				x.escapes = !x.model(root, x.want);
				values += x.want.size();
				vrt_sig(x.want.size() * 10 + x.plans.size() * 1000);
			}
			for (int i = 0; i < ns; i++) {
				auto& x = *s[i];
				size_t stop = coin(3) ? rnd(x.want.size() + 2) : ~size_t{0};
				consume<G>(&x, body<G>(&x, 0, param(&x, 0)), stop, coin());
			}
			for (auto& q : p) q->stop();
			for (auto& x : s) CHECK(x->over.get() == 1, "the consumer was %s", x->over.get() ? "resumed after its end" : "not resumed");
			if (values > 1) vrt_nontrivial();
			vrt_ignore ig;
			for (auto& x : s) std::vector<pump*>().swap(x->p);
		}
		check_quiescent();
	}
	void by_value() { programs<val>(); }
	void by_const() { programs<const val>(); }
	// empty generators are at their end at once
	co eat_empty(mon<int>* out) {
		asyncpp::async_generator<val> g;
		auto it = co_await g.begin();
		CHECK(it == g.end(), "default constructed generator is not empty");
		stream s;
		asyncpp::async_generator<val> a = body<val>(&s, 0, param(&s, 0));
		asyncpp::async_generator<val> b(std::move(a));
		auto it2 = co_await a.begin();
		CHECK(it2 == a.end(), "moved from generator is not empty");
		out->set(1);
	}
	void empty() {
		reset_globals();
		mon<int> done;
		eat_empty(&done);
		CHECK(done.get() == 1, "consumer of an empty generator not resumed");
		vrt_sig(1);
		vrt_nontrivial();
		check_quiescent();
	}
	// ---- long streams in constant stack
	asyncpp::async_generator<long> count(long n, const void** lo, int depth, pump* p) {
		if (depth == 0) {
			for (long i = 0; i < n; i++) {
				const void* here = __builtin_frame_address(0);
				if (!p && (!*lo || here < *lo)) *lo = here;
				if (p && i % 8 == 3) co_await hop{p};
				co_yield i;
			}
			co_return;
		}
		auto g = count(n, lo, depth - 1, p);
		for (auto it = co_await g.begin(); it != g.end(); co_await ++it) co_yield *it;
	}
	co eat(long n, const void** lo, int depth, pump* p, mon<long>* out) {
		long i = 0;
		{
			auto g = count(n, lo, depth, p);
			for (auto it = co_await g.begin(); it != g.end(); co_await ++it) {
				CHECK(*it == i, "value %ld instead of %ld through %d generators", *it, i, depth);
				i++;
			}
		}
		out->set(i);
	}
	void deep() {
		reset_globals();
		int depth = coin() ? (int)rnd(4) : (int)rnd(40);
		long n = 1 + (long)rnd(depth > 4 ? 40 : 300);
		const void* lo = nullptr;
		mon<long> out{-1};
		const char* top = (const char*)__builtin_frame_address(0);
		std::optional<pump> p;
		if (coin()) p.emplace(1);
		eat(n, &lo, depth, p ? &*p : nullptr, &out);
		if (p) p->stop();
		CHECK(out.get() == n, "%ld values instead of %ld", out.get(), n);
		if (lo) {
			long used = top - (const char*)lo;
			CHECK(used < 64 * 1024, "iterating %ld values through %d generators used %ld bytes of stack", n, depth, used);
		}
		vrt_count("values", n);
		vrt_sig(n * 100 + depth);
		vrt_nontrivial();
		check_quiescent();
	}
} // namespace
SCENARIOS({"by_value", by_value, 0}, {"by_const", by_const, 0}, {"deep", deep, 0}, {"empty", empty, 0})
