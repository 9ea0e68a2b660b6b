// C21: async_launch_scope
#include "hd.h"
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <atomic>
#include <deque>
#include <functional>
#include <future>
#include <optional>
using namespace h;
namespace {
	using scope = asyncpp::async_launch_scope;
	const int MAXC = 24;
	struct child {
		int parent = -1, begun = 0, done = 0, tid = -1;
		moment launched, finished;
	};
	struct world {
		std::vector<child> c;
		data eff[MAXC];
		pump* p = nullptr;
		scope* s = nullptr;
		mon<int> nested;
		mon<int> live_children;
		world() {
			vrt_ignore i;
			c.reserve(MAXC);
		}
		~world() {
			vrt_ignore i;
			std::vector<child>().swap(c);
		}
		int make(int parent) {
			vrt_ignore i;
			if ((int)c.size() >= MAXC) return -1;
			c.push_back({});
			c.back().parent = parent;
			c.back().tid = vrt_tid();
			return (int)c.size() - 1;
		}
		void begin(int id) {
			vrt_ignore i;
			CHECK(c[id].begun++ == 0, "child %d started twice", id);
			CHECK(c[id].tid == vrt_tid(), "child %d did not start in the launching call", id);
		}
		void end(int id) {
			eff[id].write(id + 100);
			vrt_ignore i;
			CHECK(c[id].done++ == 0, "child %d completed twice", id);
			c[id].finished = moment::now();
		}
		bool finished(int id) {
			vrt_ignore i;
			return c[id].done != 0;
		}
		void launched(int id) {
			vrt_ignore i;
			CHECK(c[id].begun == 1, "child %d did not run immediately", id);
			c[id].launched = moment::now();
		}
		// children a join called at `call` has to wait for
		std::vector<char> required(const moment& call) {
			std::vector<char> r(c.size());
			for (size_t i = 0; i < c.size(); i++) r[i] = before(c[i].launched, call) || (c[i].parent >= 0 && r[c[i].parent]);
			return r;
		}
		void after_join(const moment& call, const char* who) {
			std::vector<int> ids;
			{
				vrt_ignore ig;
				auto r = required(call);
				for (size_t i = 0; i < r.size(); i++)
					if (r[i]) {
						CHECK(c[i].done, "%s completed although child %zu had not finished", who, i);
						ids.push_back((int)i);
					}
			}
			for (int i : ids) CHECK(eff[i].read() == i + 100, "effects of child %d are not visible after the join", i);
			vrt_ignore ig;
			std::vector<int>().swap(ids);
		}
	};
	void launch_child(world* w, int parent, int depth);
	asyncpp::task<> work(world* w, int id, int depth, int hops, int kids) {
		tracked tr(id);
		w->begin(id);
		for (int k = 0; k <= hops; k++) {
			if (kids > 0 && (k == hops || coin())) {
				launch_child(w, id, depth - 1);
				kids--;
			}
			if (k < hops) co_await hop{w->p};
		}
		while (kids-- > 0) launch_child(w, id, depth - 1);
		CHECK(tr.get() == id, "local damaged");
		w->end(id);
	}
	// an awaitable held by value in the child
	struct aw {
		world* w;
		int id, hops;
		tracked tr;
		bool await_ready() {
			CHECK(tr.get() == id, "awaitable damaged");
			w->begin(id);
			return hops == 0 || !w->p;
		}
		void await_suspend(std::coroutine_handle<> h) {
			w->p->push([h]() mutable { h.resume(); });
		}
		void await_resume() {
			CHECK(tr.get() == id, "awaitable damaged");
			w->end(id);
		}
	};
	struct callable {
		world* w;
		int depth, hops, kids;
		tracked tr{77};
		asyncpp::task<> operator()(int id, tracked arg) {
			CHECK(tr.get() == 77, "callable damaged");
			CHECK(arg.get() == id, "argument damaged");
			return run(id);
		}
		asyncpp::task<> run(int id) { // uses the callable while running
			CHECK(tr.get() == 77, "callable damaged");
			w->begin(id);
			for (int k = 0; k < hops; k++) {
				co_await hop{w->p};
				CHECK(tr.get() == 77, "callable damaged while the child runs");
			}
			for (int k = 0; k < kids; k++) launch_child(w, id, depth - 1);
			CHECK(tr.get() == 77, "callable damaged while the child runs");
			w->end(id);
		}
	};
	void launch_child(world* w, int parent, int depth) {
		int id = w->make(parent);
		if (id < 0) return;
		int hops = w->p ? (int)rnd(3) : 0, kids = depth > 0 ? (int)rnd(3) : 0;
		if (parent >= 0) w->nested.add(1);
		switch (rnd(6)) {
		case 0: w->s->launch(work(w, id, depth, hops, kids)); break;
		case 1: {
			aw a{w, id, hops, tracked(id)};
			w->s->launch(a);
			break;
		}
		case 2: w->s->launch(aw{w, id, hops, tracked(id)}); break;
		case 3: {
			callable c{w, depth, hops, kids};
			w->s->invoke(c, id, tracked(id));
			break;
		}
		case 4: w->s->invoke(callable{w, depth, hops, kids}, id, tracked(id)); break;
		case 5: {
			callable c{w, depth, hops, kids};
			if (coin()) w->s->invoke_tuple(c, std::tuple<int, tracked>(id, tracked(id)));
			else w->s->invoke_tuple(std::move(c), std::tuple<int, tracked>(id, tracked(id)));
			break;
		}
		}
		w->launched(id);
	}
	struct joins {
		struct j {
			moment call, ret;
			int r = 0; // 1 completed, 2 logic_error
		};
		std::vector<j> v;
		joins() {
			vrt_ignore i;
			v.reserve(16);
		}
		~joins() {
			vrt_ignore i;
			std::vector<j>().swap(v);
		}
		int begin() {
			vrt_ignore i;
			v.push_back({});
			v.back().call = moment::now();
			return (int)v.size() - 1;
		}
		void end(int k, int r) {
			vrt_ignore i;
			CHECK(v[k].r == 0, "join %d completed twice", k);
			v[k].ret = moment::now();
			v[k].r = r;
		}
		int get(int k) {
			vrt_ignore i;
			return v[k].r;
		}
	};
	struct sem {
		std::atomic<int> v{0};
		int get() const { return v.load(std::memory_order_acquire); }
		void add(int d) { v.fetch_add(d, std::memory_order_release); }
	};
	co joiner(world* w, joins* js, sem* out, bool destroy) {
		int k = js->begin();
		moment call;
		{
			vrt_ignore i;
			call = js->v[k].call;
		}
		int r = 1;
		try {
			co_await w->s->join();
		} catch (std::logic_error&) { r = 2; }
		js->end(k, r);
		if (r == 1) {
			w->after_join(call, "join");
			if (destroy) {
				auto* s = w->s;
				delete s;
			}
		}
		if (out) out->add(1);
	}
	// one joiner per round; children launched before the join and by children; rejoin; destroyed right after the last join
	void rounds() {
		reset_globals();
		{
			world w;
			joins js;
			std::optional<pump> pu;
			if (!coin(5)) {
				pu.emplace(1 + (int)rnd(3));
				w.p = &*pu;
			}
			w.s = new scope();
			int rounds = 1 + (int)rnd(3);
			bool destroy = coin();
			for (int r = 0; r < rounds; r++) {
				int n = (int)rnd(4);
				for (int i = 0; i < n; i++) launch_child(&w, -1, 2);
				bool last = r == rounds - 1;
				bool fut = coin(4) && !(last && destroy);
				sem out;
				if (fut) {
					moment call = moment::now();
					auto f = w.s->join_future();
					f.get();
					w.after_join(call, "join_future");
				} else {
					bool idle;
					{
						vrt_ignore ig;
						idle = true;
						for (auto& c : w.c) idle &= c.done != 0;
					}
					idle = idle && !w.p;
					joiner(&w, &js, &out, last && destroy);
					if (idle) CHECK(out.get() == 1, "join suspended although nothing was in flight");
					int spin = 0;
					while (out.get() == 0) {
						CHECK(++spin < 3000, "join never completed");
						vrt_sleep_ns(1000000);
					}
				}
				if (!(last && destroy)) {
					CHECK(w.s->inflight_coroutines() == 0 && w.s->all_done(), "in-flight count %zu after the join", w.s->inflight_coroutines());
				}
			}
			if (pu) pu->stop();
			if (!destroy) {
				CHECK(w.s->all_done(), "not all done");
				delete w.s;
			}
			vrt_ignore ig;
			for (auto& c : w.c) CHECK(c.done == 1, "child never finished");
			vrt_count("children", w.c.size());
			vrt_count("nested", w.nested.v);
			vrt_sig(w.c.size() * 16 + rounds);
			if (w.c.size() > 1 && w.p) vrt_nontrivial();
		}
		check_quiescent();
	}
	// several threads launch and join concurrently
	void contended() {
		reset_globals();
		{
			world w;
			joins js;
			pump pu(1 + (int)rnd(2));
			w.p = &pu;
			scope s;
			w.s = &s;
			int n = 2 + (int)rnd(2);
			std::vector<std::future<void>> fs(n);
			std::vector<moment> fcall(n), fret(n);
			std::vector<int> fk(n, -1);
			parallel(n, [&](int t) {
				int k = 1 + (int)rnd(4);
				for (int i = 0; i < k; i++) {
					if (coin()) launch_child(&w, -1, 1);
					else if (coin(4) && !fs[t].valid()) {
						fcall[t] = moment::now();
						fk[t] = js.begin();
						fs[t] = s.join_future();
					} else
						joiner(&w, &js, nullptr, false);
				}
				if (fs[t].valid()) {
					fs[t].wait();
					int r = 1;
					try {
						fs[t].get();
						w.after_join(fcall[t], "join_future");
					} catch (std::logic_error&) { r = 2; }
					js.end(fk[t], r);
				}
			});
			pu.stop();
			CHECK(s.all_done() && s.inflight_coroutines() == 0, "in-flight count %zu at the end", s.inflight_coroutines());
			vrt_ignore ig;
			for (auto& c : w.c) CHECK(c.done == 1, "child never finished");
			int dups = 0;
			for (size_t i = 0; i < js.v.size(); i++) {
				CHECK(js.v[i].r != 0, "join %zu never completed", i);
				if (js.v[i].r != 2) continue;
				dups++;
				bool overlap = false;
				for (size_t k = 0; k < js.v.size(); k++)
					if (k != i && !before(js.v[k].ret, js.v[i].call) && !before(js.v[i].ret, js.v[k].call)) overlap = true;
				CHECK(overlap, "join %zu reported logic_error although no other join was in progress", i);
			}
			vrt_count("children", w.c.size());
			vrt_count("joins", js.v.size());
			vrt_count("duplicate_joins", dups);
			if (js.v.size() && w.c.size()) vrt_nontrivial();
		}
		check_quiescent();
	}
	struct gate {
		std::coroutine_handle<> hd{};
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> x) { hd = x; }
		void await_resume() {}
	};
	struct gate_ref {
		gate* g;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> x) { g->hd = x; }
		void await_resume() {}
	};
	// a second join while one is suspended must report logic_error and leave the first alone; then again
	void duplicate() {
		reset_globals();
		{
			world w;
			joins js;
			scope s;
			w.s = &s;
			int rounds = 1 + (int)rnd(3);
			for (int r = 0; r < rounds; r++) {
				gate g[3];
				int n = 1 + (int)rnd(3);
				for (int i = 0; i < n; i++) s.launch(gate_ref{&g[i]});
				CHECK(s.inflight_coroutines() == (size_t)n && !s.all_done(), "%d children in flight but count is %zu", n, s.inflight_coroutines());
				sem a, b;
				bool first_future = coin(3);
				std::future<void> f1;
				if (first_future) f1 = s.join_future();
				else joiner(&w, &js, &a, false);
				CHECK(a.get() == 0, "join completed although %d children are in flight", n);
				int dups = 1 + (int)rnd(2);
				for (int d = 0; d < dups; d++) {
					if (coin()) {
						joiner(&w, &js, &b, false);
						CHECK(b.get() == d + 1, "second join neither failed nor completed");
						CHECK(js.get((int)js.v.size() - 1) == 2, "second join completed although %d children are in flight", n);
					} else {
						b.add(1);
						auto f = s.join_future();
						CHECK(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "second join_future neither failed nor completed");
						bool thrown = false;
						try {
							f.get();
						} catch (std::logic_error&) { thrown = true; }
						CHECK(thrown, "second join_future completed although children are in flight");
					}
				}
				for (int i = 0; i < n; i++) {
					CHECK(a.get() == 0 && (!first_future || f1.wait_for(std::chrono::seconds(0)) != std::future_status::ready), "join completed although %d children are in flight", n - i);
					if (coin() || !w.p) g[i].hd.resume();
					CHECK(s.inflight_coroutines() == (size_t)(n - i - 1), "%d children in flight but count is %zu", n - i - 1, s.inflight_coroutines());
				}
				if (first_future) {
					CHECK(f1.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "join_future not ready after the last child");
					f1.get();
				} else
					CHECK(a.get() == 1, "join completed %d times after the last child finished", a.get());
				sem c;
				joiner(&w, &js, &c, false);
				CHECK(c.get() == 1 && js.get((int)js.v.size() - 1) == 1, "join with nothing in flight did not complete at once");
				vrt_sig(n * 8 + dups);
				vrt_count("rounds", 1);
			}
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// the last child finishes while the joiner arrives; the scope goes right after the join
	void last_child() {
		reset_globals();
		{
			world w;
			joins js;
			pump pu(1 + (int)rnd(2));
			w.p = &pu;
			int rounds = 1 + (int)rnd(3);
			for (int r = 0; r < rounds; r++) {
				w.s = new scope();
				sem out;
				int n = 1 + (int)rnd(2);
				for (int i = 0; i < n; i++) {
					int id = w.make(-1);
					w.s->launch(aw{&w, id, 1, tracked(id)});
					w.launched(id);
				}
				int k = (int)rnd(4);
				while (k--) vrt_yield();
				joiner(&w, &js, &out, true);
				int spin = 0;
				while (out.get() == 0) {
					CHECK(++spin < 3000, "join never completed");
					vrt_sleep_ns(1000000);
				}
			}
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ what reaches the callable; children that are destroyed
	struct manual : asyncpp::dispatcher {
		std::deque<std::function<void()>> q;
		void push(std::function<void()> fn) override { q.push_back(std::move(fn)); }
		void drain() {
			while (!q.empty()) {
				auto fn = std::move(q.front());
				q.pop_front();
				fn();
			}
		}
	};
	struct object {
		tracked tr{5};
		mon<int> runs{0};
		asyncpp::task<> member(manual* p, const tracked& byref, tracked byval) {
			CHECK(byref.get() == 8 && byval.get() == 9, "arguments damaged");
			if (p) co_await hop{p};
			CHECK(tr.get() == 5 && byval.get() == 9, "object or argument damaged");
			runs.add(1);
		}
	};
	struct parked { // never resumed by itself
		std::coroutine_handle<>* at;
		tracked tr{3};
		bool await_ready() const { return false; }
		void await_suspend(std::coroutine_handle<> h) { *at = h; }
		void await_resume() { CHECK(tr.get() == 3, "awaitable damaged"); }
	};
	void forwarding() {
		reset_globals();
		{
			std::optional<scope> s(std::in_place);
			manual p;
			object o;
			mon<int> ran(0), joined(0);
			int number = 0, n = 1 + (int)rnd(5), want = 0;
			tracked lv(8);
			std::vector<std::coroutine_handle<>> left;
			left.reserve(8);
			int nparked = 0;
			for (int k = 0; k < n; k++) {
				want++;
				manual* q = coin() ? &p : nullptr;
				switch (rnd(6)) {
				case 0: // lvalues arrive as the same object, rvalues may be moved from
					s->invoke(
						[&](int& x, tracked& t, std::unique_ptr<int> u, const tracked& c) -> asyncpp::task<> {
							CHECK(&x == &number && &t == &lv && &c == &lv, "a reference argument names another object");
							CHECK(u && *u == 4, "argument lost");
							x++;
							return [](mon<int>* r, manual* q, std::unique_ptr<int> u) -> asyncpp::task<> {
								if (q) co_await hop{q};
								CHECK(*u == 4, "argument damaged");
								r->add(1);
							}(&ran, q, std::move(u));
						},
						number, lv, std::make_unique<int>(4), std::as_const(lv));
					number--;
					CHECK(number == 0, "the callable changed a copy of its argument");
					break;
				case 1: s->invoke(&object::member, &o, q, lv, tracked(9)); break;
				case 2: s->invoke(&object::member, o, q, lv, tracked(9)); break;
				case 3: { // callables that can be moved but not copied
					s->invoke([u = std::make_unique<int>(6), &ran, q]() mutable -> asyncpp::task<> {
						CHECK(*u == 6, "callable damaged");
						if (q) co_await hop{q};
						CHECK(*u == 6, "callable damaged while the child runs");
						(*u)++;
						ran.add(1);
					});
					break;
				}
				case 4: {
					std::tuple<int&, std::unique_ptr<int>> t(number, std::make_unique<int>(4));
					s->invoke_tuple(
						[&](int& x, std::unique_ptr<int> u) {
							CHECK(&x == &number && u && *u == 4, "a tuple element names another object");
							return [](mon<int>* r, manual* q) -> asyncpp::task<> {
								if (q) co_await hop{q};
								r->add(1);
							}(&ran, q);
						},
						std::move(t));
					break;
				}
				default:
					if (nparked == 8) break;
					want--;
					left.push_back({});
					if (coin()) s->launch(parked{&left.back()});
					else
						s->invoke([a = &left.back()]() { return parked{a}; });
					CHECK((bool)left.back(), "child not started");
					nparked++;
				}
			}
			auto join = [&]() -> asyncpp::task<> {
				co_await s->join();
				joined.add(1);
				if (coin()) s.reset();
			};
			auto t = join();
			bool early = coin();
			if (early) asyncpp::launch(std::move(t));
			p.drain();
			while (!left.empty()) { // a child that is destroyed does not hold up anybody
				size_t k = rnd(left.size());
				auto h = left[k];
				left.erase(left.begin() + (long)k);
				CHECK(joined.get() == 0 && s->inflight_coroutines() == left.size() + 1 && !s->all_done(), "%zu children are in flight, %zu reported", left.size() + 1, s->inflight_coroutines());
				if (coin()) h.destroy();
				else h.resume();
				p.drain();
			}
			if (!early) {
				CHECK(s->all_done() && s->inflight_coroutines() == 0, "children in flight after all have finished");
				asyncpp::launch(std::move(t));
			}
			CHECK(joined.get() == 1, "join completed %d times", joined.get());
			CHECK(ran.get() + o.runs.get() == want, "%d children of %d ran to completion", ran.get() + o.runs.get(), want);
			vrt_sig((u64)n * 100 + want);
			vrt_nontrivial();
			vrt_ignore i;
			std::vector<std::coroutine_handle<>>().swap(left);
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"rounds", rounds, 0}, {"forwarding", forwarding, VRT_SINGLE}, {"contended", contended, 0}, {"duplicate", duplicate, 0}, {"last_child", last_child, 0})
