// C18: generators yield exactly the body's sequence, lazily; fmap; lifetimes
#include "nat.h"
#include <asyncpp/generator.h>
#include <numeric>
#include <optional>
using namespace h;
namespace {
	// ---- values that notice copies and moves
	struct val {
		long v;
		int copies = 0, moves = 0;
		explicit val(long x) : v(x) {}
		val(const val& o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
		val(val&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1000000; }
		val& operator=(const val&) = delete;
	};
	// ---- the plan of a body: a tree of steps, interpreted by the coroutine and by the model
	enum kind { y_local, y_temp, y_const, y_same, local, child, guarded, boom, ret };
	struct step {
		kind k;
		int a;
	};
	struct plan {
		std::vector<step> steps;
		int id;
	};
	struct event {
		char what; // b begin, e end of body, + local, - local destroyed, y yield, r resumed after yield, c caught, t thrown, m modified value seen
		long a, b;
		bool operator==(const event& o) const { return what == o.what && a == o.a && b == o.b; }
	};
	std::vector<plan>* g_plans;
	std::vector<event>* g_trace;
	const void* g_addr; // where the yielded value lives
	void emit(char w, long a = 0, long b = 0) { g_trace->push_back({w, a, b}); }
	struct mark {
		int id, n;
		tracked t;
		mark(int i, int k) : id(i), n(k), t(i * 100 + k) { emit('+', id, n); }
		mark(const mark&) = delete;
		~mark() {
			CHECK(t.get() == id * 100 + n, "local of a generator body damaged");
			emit('-', id, n);
		}
	};
	template<class V>
	using gen = asyncpp::generator<V>;
	// G: element type of the generator (val, const val, val&, const val&)
	// the expression a body of a given element type may yield for an object it owns
	template<class G, class V>
	decltype(auto) own(V& v) {
		if constexpr (std::is_rvalue_reference_v<G>) return static_cast<V&&>(v);
		else return static_cast<V&>(v);
	}
	template<class G>
	gen<G> body(int id, tracked param) {
		emit('b', id);
		mark m0(id, 0);
		val keep(id * 1000 + 999);
		std::vector<std::unique_ptr<mark>> locals;
		const plan& p = (*g_plans)[id];
		for (size_t i = 0; i < p.steps.size(); i++) {
			CHECK(param.get() == id + 50, "parameter of a generator damaged");
			long x = id * 1000 + (long)i;
			switch (p.steps[i].k) {
			case y_local: {
				val v(x);
				g_addr = &v;
				emit('y', x);
				co_yield own<G>(v);
				emit('r', x);
				CHECK(v.copies == 0 && v.moves == 0, "yielded local was copied or moved");
				emit('m', v.v);
				break;
			}
			case y_temp: {
				emit('y', x);
				g_addr = nullptr;
				if constexpr (std::is_lvalue_reference_v<G>) {
					val v(x);
					co_yield own<G>(v);
				} else
					co_yield val(x);
				emit('r', x);
				break;
			}
			case y_const: {
				if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
					const val v(x);
					g_addr = &v;
					emit('y', x);
					co_yield own<G>(v);
				} else {
					val v(x);
					g_addr = &v;
					emit('y', x);
					co_yield own<G>(v);
				}
				emit('r', x);
				break;
			}
			case y_same: {
				g_addr = &keep;
				emit('y', keep.v);
				co_yield own<G>(keep);
				emit('r', x);
				emit('m', keep.v);
				break;
			}
			case local: {
				if constexpr (true) locals.push_back(std::make_unique<mark>(id, (int)i + 1));
				break;
			}
			case child:
				for (auto&& v : body<G>(p.steps[i].a, tracked(p.steps[i].a + 50))) {
					CHECK(g_addr == nullptr || &v == g_addr, "value of an inner generator moved");
					const void* keepaddr = &v;
					long before = v.v;
					g_addr = keepaddr;
					co_yield own<G>(v);
					(void)before;
				}
				break;
			case guarded: {
				mark mm(id, 500 + (int)i);
				try {
					mark mt(id, 600 + (int)i);
					for (auto&& v : body<G>(p.steps[i].a, tracked(p.steps[i].a + 50))) co_yield own<G>(v);
				} catch (const trivial_error& e) { emit('c', id, e.v); }
				break;
			}
			case boom: emit('t', x); throw trivial_error{(int)x};
			case ret: emit('e', id); co_return;
			}
		}
		emit('e', id);
	}
	// ---- the model: the whole run as a list of events, with the events of unwinding at every yield
	struct model {
		std::vector<event> ev;
		std::vector<size_t> yields; // index in ev of each 'y'
		std::vector<long> values;
		std::vector<std::vector<event>> unwind; // destructions if abandoned at that yield
		std::vector<std::vector<event>> live;	// innermost frame last; events in order of destruction
		bool mutates;							// the consumer adds 1 to every value it may change
		bool thrown = false;
		int error = 0;
		void push(event e) { ev.push_back(e); }
		void yield(long v) {
			push({'y', v, 0});
			yields.push_back(ev.size() - 1);
			values.push_back(v);
			std::vector<event> u;
			for (size_t k = live.size(); k-- > 0;) u.insert(u.end(), live[k].begin(), live[k].end());
			unwind.push_back(u);
		}
		// returns false if an exception escaped
		bool run(int id) {
			const plan& p = (*g_plans)[id];
			push({'b', id, 0});
			push({'+', id, 0});
			live.push_back({{'-', id, 0}});
			size_t mine = live.size() - 1;
			long keep = id * 1000 + 999;
			std::vector<event> locals; // a vector destroys its elements first to last
			auto refresh = [&]() {
				live[mine] = locals;
				live[mine].push_back({'-', id, 0});
			};
			auto leave = [&]() {
				refresh();
				for (auto& e : live[mine]) push(e);
				live.pop_back();
			};
			for (size_t i = 0; i < p.steps.size(); i++) {
				long x = id * 1000 + (long)i;
				switch (p.steps[i].k) {
				case y_local:
					yield(x);
					push({'r', x, 0});
					push({'m', x + mutates, 0});
					break;
				case y_temp:
				case y_const:
					yield(x);
					push({'r', x, 0});
					break;
				case y_same:
					yield(keep);
					keep += mutates;
					push({'r', x, 0});
					push({'m', keep, 0});
					break;
				case local:
					push({'+', id, (long)i + 1});
					locals.push_back({'-', id, (long)i + 1});
					refresh();
					break;
				case child:
					if (!run(p.steps[i].a)) {
						leave();
						return false;
					}
					break;
				case guarded:
					push({'+', id, 500 + (long)i});
					push({'+', id, 600 + (long)i});
					live.push_back({{'-', id, 600 + (long)i}, {'-', id, 500 + (long)i}});
					{
						bool ok = run(p.steps[i].a);
						live.pop_back();
						push({'-', id, 600 + (long)i});
						if (!ok) push({'c', id, error});
						push({'-', id, 500 + (long)i});
					}
					break;
				case boom:
					push({'t', x, 0});
					error = (int)x;
					leave();
					return false;
				case ret:
					push({'e', id, 0});
					leave();
					return true;
				}
			}
			push({'e', id, 0});
			leave();
			return true;
		}
	};
	int make_plan(int depth) {
		int id = (int)g_plans->size();
		g_plans->emplace_back();
		std::vector<step> s;
		int n = depth ? (int)rnd(6) : 1 + (int)rnd(9);
		for (int i = 0; i < n; i++) {
			int k = (int)rnd(22);
			step st{y_local, 0};
			if (k < 5) st.k = y_local;
			else if (k < 8) st.k = y_temp;
			else if (k < 10) st.k = y_const;
			else if (k < 13) st.k = y_same;
			else if (k < 16) st.k = local;
			else if (k < 18 && depth < 3) st = {child, make_plan(depth + 1)};
			else if (k < 20 && depth < 3) st = {guarded, make_plan(depth + 1)};
			else if (k == 20) st.k = boom;
			else if (k == 21 && coin()) st.k = ret;
			s.push_back(st);
		}
		(*g_plans)[id].steps = std::move(s);
		(*g_plans)[id].id = id;
		return id;
	}
	void same(const std::vector<event>& want, size_t n, const char* when) {
		auto& t = *g_trace;
		for (size_t i = 0; i < std::max(n, t.size()); i++) {
			if (i >= t.size()) CHECK(false, "%s: the body stopped before event %zu (%c %ld %ld)", when, i, want[i].what, want[i].a, want[i].b);
			if (i >= n) CHECK(false, "%s: the body ran too far: event %zu (%c %ld %ld)", when, i, t[i].what, t[i].a, t[i].b);
			CHECK(t[i] == want[i], "%s: event %zu is (%c %ld %ld) instead of (%c %ld %ld)", when, i, t[i].what, t[i].a, t[i].b, want[i].what, want[i].a, want[i].b);
		}
	}
	template<class G>
	void programs() {
		reset_globals();
		{
			std::vector<plan> plans;
			std::vector<event> trace;
			g_plans = &plans;
			g_trace = &trace;
			int root = make_plan(0);
			model m;
			m.mutates = !std::is_const_v<std::remove_reference_t<G>> && coin();
			bool escaped = !m.run(root);
			vrt_sig(m.ev.size() * 1000 + m.values.size());
			for (auto& e : m.ev) vrt_sig(e.what * 100000 + e.a * 10 + e.b);
			size_t stop = coin(3) ? rnd(m.values.size() + 2) : ~size_t{0}; // abandon after that many values
			int mode = (int)rnd(6);
			bool started = false, over = false, moved_over = false;
			size_t got = 0;
			{
				gen<G> g = body<G>(root, tracked(root + 50));
				CHECK(trace.empty(), "body ran before the first value was requested");
				if (coin(3)) { // move before the start
					gen<G> g2 = std::move(g);
					if (coin()) {
						gen<G> g3;
						g3 = std::move(g2);
						g = std::move(g3);
					} else
						g = std::move(g2);
					CHECK(trace.empty(), "body ran while the generator was moved");
				}
				if (stop != 0 || mode != 0) {
					gen<G> holder;
					try {
						started = true;
						auto it = g.begin();
						while (true) {
							bool end = it == g.end();
							CHECK(end == (g.end() == it) && end != (it != g.end()) && end != (g.end() != it), "comparisons with end() disagree");
							if (end) {
								over = true;
								break;
							}
							CHECK(got < m.values.size(), "more values than the body yields");
							same(m.ev, m.yields[got] + 1, "at a value");
							auto&& v = *it;
							CHECK((std::is_same_v<decltype(*it), std::conditional_t<std::is_reference_v<G>, G, G&>>), "wrong reference type");
							CHECK(v.v == m.values[got], "value %zu is %ld instead of %ld", got, v.v, m.values[got]);
							CHECK(v.copies == 0 && v.moves == 0, "value copied %d and moved %d times", v.copies, v.moves);
							CHECK(g_addr == nullptr || g_addr == &v, "value is not the yielded object");
							if constexpr (!std::is_rvalue_reference_v<G>) CHECK(&*it == &v, "operator* refers to another object");
							CHECK(it.operator->() == &v, "operator* and operator-> disagree");
							if constexpr (!std::is_const_v<std::remove_reference_t<G>>)
								if (m.mutates) v.v++;
							got++;
							if (got == stop) break;
							if (coin(8)) { // the iterator stays usable when the generator is moved
								holder = std::move(g);
								same(m.ev, m.yields[got - 1] + 1, "after moving the generator");
								if (coin()) g = std::move(holder);
								else {
									gen<G> tmp(std::move(holder));
									g = std::move(tmp);
								}
							}
							if (coin(4)) it++;
							else {
								auto& r = ++it;
								CHECK(&r == &it, "++ returns another iterator");
							}
						}
						if (over) CHECK(!escaped, "the exception of the body was lost");
					} catch (const trivial_error& e) {
						over = true;
						CHECK(escaped && e.v == m.error, "exception %d from the generator", e.v);
						CHECK(got == m.values.size(), "exception after %zu values instead of %zu", got, m.values.size());
					}
					if (over) {
						CHECK(got == m.values.size(), "%zu values instead of %zu", got, m.values.size());
						same(m.ev, m.ev.size(), "at the end");
					}
					if (coin(4)) { // assign over it
						moved_over = true;
						g = gen<G>{};
					}
				}
			}
			if (over) same(m.ev, m.ev.size(), "after destruction");
			else if (!started) CHECK(trace.empty(), "body of an abandoned generator ran");
			else {
				std::vector<event> want(m.ev.begin(), m.ev.begin() + m.yields[got - 1] + 1);
				auto& u = m.unwind[got - 1];
				want.insert(want.end(), u.begin(), u.end());
				same(want, want.size(), "after abandoning it");
			}
			(void)moved_over;
			vrt_count("values", got);
			vrt_count(over ? escaped ? "ended_by_exception" : "exhausted" : "abandoned", 1);
			if (m.values.size() > 1) vrt_nontrivial();
		}
		check_quiescent();
	}
	void by_value() { programs<val>(); }
	void by_const() { programs<const val>(); }
	void by_ref() { programs<val&>(); }
	void by_rref() { programs<val&&>(); }
	// ---- fmap: once per value, in order and on demand
	struct fcount {
		int* calls;
		tracked t;
		int stage;
		long operator()(long& x) {
			CHECK(t.get() == 77, "function object damaged");
			calls[stage]++;
			if (x % 17 == 13) throw trivial_error{stage};
			return x * 3 + stage;
		}
	};
	struct fmove { // takes the value by const reference, keeps state
		int* calls;
		tracked t;
		int stage;
		int seen = 0;
		long operator()(const long& x) {
			calls[stage]++;
			seen++;
			if (x % 17 == 13) throw trivial_error{stage};
			return x + 1000 * seen;
		}
	};
	asyncpp::generator<long> source(int n, int* calls, tracked t, int boom) {
		tracked l(t.get());
		for (int i = 0; i < n; i++) {
			calls[0]++;
			if (i == boom) throw trivial_error{0};
			long x = i;
			co_yield x;
			CHECK(x == i, "fmap changed the source value");
		}
		CHECK(l.get() == 5, "local damaged");
	}
	void mapped() {
		reset_globals();
		{
			int calls[6] = {};
			int n = (int)rnd(8), boom = coin(4) ? (int)rnd(8) : -1, stages = 1 + (int)rnd(4), kinds = (int)rnd(16);
			size_t stop = coin(3) ? rnd(n + 1) : n + 1;
			std::optional<asyncpp::generator<long>> g(source(n, calls, tracked(5), boom));
			for (int s = 1; s <= stages; s++) {
				asyncpp::generator<long> in = std::move(*g);
				g.reset();
				if (kinds >> s & 1) g.emplace(asyncpp::fmap(fcount{calls, tracked(77), s}, std::move(in)));
				else g.emplace(asyncpp::fmap(fmove{calls, tracked(78), s}, std::move(in)));
			}
			for (int s = 0; s <= stages; s++) CHECK(calls[s] == 0, "stage %d ran before the first value was requested", s);
			int want[6] = {}, seen[6] = {};
			size_t got = 0;
			bool done = false;
			auto next_model = [&](long& out, int& err) { // 0 end, 1 value, 2 exception
				size_t i = got;
				if ((int)i >= n) return 0;
				want[0]++;
				if ((int)i == boom) {
					err = 0;
					return 2;
				}
				long x = (long)i;
				for (int s = 1; s <= stages; s++) {
					want[s]++;
					if (x % 17 == 13) {
						if (!(kinds >> s & 1)) seen[s]++;
						err = s;
						return 2;
					}
					x = kinds >> s & 1 ? x * 3 + s : x + 1000 * ++seen[s];
				}
				out = x;
				return 1;
			};
			if (stop > 0) {
				long v = 0;
				int err = -1, r = next_model(v, err);
				try {
					for (auto it = g->begin();; ++it) {
						if (got) r = -1;
						if (it == g->end()) {
							if (r < 0) r = next_model(v, err);
							CHECK(r == 0, "fmap ended after %zu values", got);
							done = true;
							break;
						}
						if (r < 0) r = next_model(v, err);
						CHECK(r == 1, "fmap yields a value where %s is due", r ? "an exception" : "the end");
						CHECK(*it == v, "value %zu is %ld instead of %ld", got, (long)*it, v);
						for (int s = 0; s <= stages; s++) CHECK(calls[s] == want[s], "stage %d called %d times for %zu values", s, calls[s], got + 1);
						if (++got == stop) break;
					}
				} catch (const trivial_error& e) {
					if (r != 2) r = next_model(v, err);
					CHECK(r == 2 && e.v == err, "exception of stage %d after %zu values", e.v, got);
					done = true;
				}
				for (int s = 0; s <= stages; s++) CHECK(calls[s] == want[s], "stage %d called %d times in the end instead of %d", s, calls[s], want[s]);
			}
			g.reset();
			for (int s = 0; s <= stages; s++) CHECK(calls[s] == want[s], "stage %d called by the destruction", s);
			vrt_sig(n * 100 + stages + kinds * 1000 + (boom + 1) * 100000 + stop * 10000000);
			vrt_count("values", got);
			vrt_count(done ? "exhausted" : "abandoned", 1);
			if (got > 1) vrt_nontrivial();
		}
		check_quiescent();
	}
	// ---- with standard algorithms over the iterators, long sequences and deep nesting
	asyncpp::generator<long> count(long n) {
		for (long i = 0; i < n; i++) co_yield i;
	}
	asyncpp::generator<long> nest(int depth, long n) {
		if (depth == 0) {
			for (long i = 0; i < n; i++) co_yield i;
			co_return;
		}
		for (auto& x : nest(depth - 1, n)) co_yield x;
	}
	void streams() {
		reset_globals();
		{
			long n = (long)rnd(3000);
			int depth = (int)rnd(60);
			long i = 0, sum = 0;
			for (auto& x : nest(depth, n)) {
				CHECK(x == i, "value %ld instead of %ld through %d generators", x, i, depth);
				i++;
				sum += x;
			}
			CHECK(i == n, "%ld values instead of %ld", i, n);
			long s2 = 0;
			for (auto&& x : asyncpp::fmap([](long& v) { return v * 2; }, count(n))) s2 += x;
			CHECK(s2 == sum * 2, "sum over fmap is wrong");
			// two generators consumed in an interleaved fashion
			auto a = count(n), b = nest(3, n);
			auto ia = a.begin(), ib = b.begin();
			long na = 0, nb = 0;
			while (ia != a.end() && ib != b.end()) {
				if (coin()) {
					CHECK(*ia == na++, "interleaved generators disturb each other");
					++ia;
				} else {
					CHECK(*ib == nb++, "interleaved generators disturb each other");
					++ib;
				}
				if (na + nb > 200) break;
			}
			vrt_sig(n * 100 + depth);
			vrt_count("values", n);
			if (n > 1) vrt_nontrivial();
		}
		check_quiescent();
	}
	// a default constructed or moved from generator is empty
	void empty() {
		reset_globals();
		{
			gen<val> g;
			CHECK(g.begin() == g.end(), "default constructed generator not empty");
			std::vector<plan> plans(1);
			std::vector<event> trace;
			g_plans = &plans;
			g_trace = &trace;
			int n = (int)rnd(4);
			for (int i = 0; i < n; i++) plans[0].steps.push_back({y_local, 0});
			gen<val> a = body<val>(0, tracked(50));
			gen<val> b(std::move(a));
			CHECK(a.begin() == a.end(), "moved from generator not empty");
			CHECK(trace.empty(), "body ran for a moved from generator");
			int got = 0;
			for (auto& v : b) {
				CHECK(v.v == got, "wrong value");
				got++;
			}
			CHECK(got == n, "%d values instead of %d", got, n);
			vrt_sig(n);
			vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"by_value", by_value, 0}, {"by_const", by_const, 0}, {"by_ref", by_ref, 0}, {"by_rref", by_rref, 0}, {"mapped", mapped, 0}, {"streams", streams, 0}, {"empty", empty, 0})
