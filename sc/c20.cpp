// C20: fire_and_forget_task
#include "hd.h"
#include <asyncpp/fire_and_forget.h>
#include <optional>
using namespace h;
namespace {
	const int MAXT = 10;
	struct world {
		mon<int> begun[MAXT], ended[MAXT], freed[MAXT], startcalls[MAXT], certain[MAXT], handled[MAXT], plan[MAXT];
		data eff[MAXT];
		mon<int> owner[MAXT]; // thread whose effects the body must see
		pump* p = nullptr;
		mon<int> n;
	};
	struct param {
		world* w;
		int id;
		tracked t;
		bool active = true;
		param(world* ww, int i) : w(ww), id(i), t(i) {}
		param(param&& o) noexcept : w(o.w), id(o.id), t(std::move(o.t)), active(std::exchange(o.active, false)) {}
		~param() {
			if (!active) return;
			CHECK(w->freed[id].add(1) == 0, "frame of task %d destroyed twice", id);
			CHECK(w->begun[id].get() == w->ended[id].get(), "frame of task %d destroyed while it was running", id);
			CHECK(w->ended[id].get() == 1 || w->certain[id].get() == 0, "frame of never started task %d destroyed while %d handle(s) exist", id, w->certain[id].get());
			CHECK(w->ended[id].get() == 1 || w->startcalls[id].get() == 0, "started task %d destroyed before it completed", id);
		}
	};
	struct notify_end {
		world* w;
		int id;
		~notify_end() { w->ended[id].add(1); }
	};
	template<class T>
	T body(world* w, param pa, int hops, int outcome) {
		int id = pa.id;
		CHECK(w->begun[id].add(1) == 0, "body of task %d ran twice", id);
		CHECK(w->freed[id].get() == 0, "body of task %d runs in a destroyed frame", id);
		CHECK(pa.t.get() == id, "parameter damaged");
		CHECK(w->eff[id].read() == id + 5, "effects before the start are not visible");
		notify_end ne{w, id};
		for (int i = 0; i < hops; i++) {
			co_await hop{w->p};
			CHECK(pa.t.get() == id, "parameter damaged after a suspension");
		}
		if (outcome >= 4) co_await asyncpp::exception_policy::ignore;
		if (outcome == 1 || outcome == 4)
			co_await asyncpp::exception_policy::handle([w, id, tr = tracked(id)]() {
				CHECK(tr.get() == id, "handler state damaged");
				CHECK(w->handled[id].add(1) == 0, "exception handler of task %d called twice", id);
				try {
					std::rethrow_exception(std::current_exception());
				} catch (trivial_error& e) { CHECK(e.v == id, "handler sees another exception"); } catch (...) {
					vrt_fail("oracle", "handler sees another exception");
				}
			});
		if (outcome == 3) co_await asyncpp::exception_policy::ignore;
		vrt_yield();
		w->eff[id].write(-id);
		if (outcome) throw trivial_error{id};
	}
	// outcome: 0 returns, 1 throws handled, 3 throws ignored, 4 ignore then handle, 5 ignore only
	int pick_outcome() {
		static const int o[] = {0, 0, 0, 1, 3, 4, 5};
		return o[rnd(7)];
	}
	template<class T>
	void run() {
		constexpr bool eager = std::is_same_v<T, asyncpp::eager_fire_and_forget_task<>>;
		reset_globals();
		{
			world w;
			std::optional<pump> pu;
			if (!coin(4)) {
				pu.emplace(1 + (int)rnd(2));
				w.p = &*pu;
			}
			int nt = 1 + (int)rnd(3), nthr = 1 + (int)rnd(3);
			struct slot {
				std::optional<T> h;
				int id = -1; // task the handle refers to, -1: none
			};
			std::vector<std::vector<slot>> sl(nthr);
			for (auto& v : sl) v.resize(3);
			auto make = [&](slot& s) {
				int id = w.n.add(1);
				if (id >= MAXT) return;
				int hops = w.p ? (int)rnd(3) : 0, oc = pick_outcome();
				w.plan[id].set(oc);
				w.eff[id].write(id + 5);
				if (eager) w.startcalls[id].add(1);
				CHECK(!s.h.has_value(), "harness");
				s.h.emplace(body<T>(&w, param(&w, id), hops, oc));
				s.id = id;
				if (eager) CHECK(w.begun[id].get() == 1, "eager task %d did not start at once", id);
				else CHECK(w.begun[id].get() == 0, "lazy task %d started by itself", id);
				w.certain[id].add(1);
			};
			auto drop = [&](slot& s) { // before a handle loses its reference
				if (s.id >= 0) w.certain[s.id].add(-1);
				s.id = -1;
			};
			auto gain = [&](slot& s, int id) {
				s.id = id;
				if (id >= 0) w.certain[id].add(1);
			};
			for (int i = 0; i < nt; i++) make(sl[0][i]);
			for (int t = 1; t < nthr; t++) // give every thread copies
				for (int i = 0; i < 3; i++)
					if (coin()) {
						slot& from = sl[0][rnd(nt)];
						if (!from.h) continue;
						sl[t][i].h.emplace(*from.h);
						gain(sl[t][i], from.id);
					}
			int shape = (int)rnd(3);
			parallel(nthr, [&](int t) {
				auto& v = sl[t];
				int nops = shape == 0 ? 1 + (int)rnd(3) : 3 + (int)rnd(7);
				for (int k = 0; k < nops; k++) {
					slot &a = v[rnd(3)], &b = v[rnd(3)];
					switch (rnd(shape == 0 ? 4 : 9)) {
					case 0:
					case 1:
						if constexpr (!eager)
							if (a.h) {
								int id = a.id;
								if (id >= 0) w.startcalls[id].add(1);
								drop(a); // the handle gives its reference up
								a.h->start();
								// nobody but the call that started it runs the body: it has begun when the first start returned
								vrt_count("start", 1);
							}
						break;
					case 2:
					case 3:
						drop(a);
						a.h.reset();
						break;
					case 4: // copy construct
						if (a.h && &a != &b) {
							drop(b);
							b.h.reset();
							int id = a.id;
							b.h.emplace(*a.h);
							gain(b, id);
						}
						break;
					case 5: // move construct
						if (a.h && &a != &b) {
							drop(b);
							b.h.reset();
							int id = a.id;
							drop(a);
							b.h.emplace(std::move(*a.h));
							gain(b, id);
						}
						break;
					case 6: // copy assign (self included)
						if (a.h && b.h) {
							int id = a.id;
							if (&a != &b) drop(b);
							*b.h = *a.h;
							if (&a != &b) gain(b, id);
						}
						break;
					case 7: // move assign (self included); the old value lives on in the source or is dropped
						if (a.h && b.h) {
							int ida = a.id, idb = b.id;
							if (&a == &b) {
								auto& self = *a.h;
								*b.h = std::move(self);
							} else {
								drop(a);
								drop(b);
								*b.h = std::move(*a.h);
								b.id = ida;
								if (ida >= 0) w.certain[ida].add(1);
								a.h.reset(); // whatever it still holds goes
							}
							(void)idb;
						}
						break;
					case 8:
						if (!a.h) make(a);
						break;
					}
					if (coin(3)) vrt_yield();
				}
				for (auto& s : v) {
					if (coin(3)) {
						if constexpr (!eager)
							if (s.h) {
								if (s.id >= 0) w.startcalls[s.id].add(1);
								drop(s);
								s.h->start();
							}
					}
					drop(s);
					s.h.reset();
				}
			});
			if (pu) pu->stop();
			int n = std::min(w.n.get(), MAXT);
			int ran = 0;
			for (int i = 0; i < n; i++) {
				bool st = w.startcalls[i].get() > 0;
				CHECK(w.begun[i].get() == (st ? 1 : 0), "task %d: %d start() calls, body ran %d times", i, w.startcalls[i].get(), w.begun[i].get());
				CHECK(w.ended[i].get() == w.begun[i].get(), "task %d never finished", i);
				CHECK(w.freed[i].get() == 1, "frame of task %d never destroyed", i);
				int oc = w.plan[i].get();
				CHECK(w.handled[i].get() == (st && (oc == 1 || oc == 4) ? 1 : 0), "task %d (outcome %d): exception handler called %d times", i, oc, w.handled[i].get());
				ran += st;
				vrt_sig((u64)oc * 4 + st);
			}
			vrt_count("tasks", n);
			vrt_count("bodies_run", ran);
			if (ran) vrt_nontrivial();
		}
		check_quiescent();
	}
	void lazy() { run<asyncpp::fire_and_forget_task<>>(); }
	void eager() { run<asyncpp::eager_fire_and_forget_task<>>(); }
	// two or more handles of one task race: start against start against destruction
	void race() {
		using T = asyncpp::fire_and_forget_task<>;
		reset_globals();
		{
			world w;
			std::optional<pump> pu;
			if (coin()) {
				pu.emplace(1);
				w.p = &*pu;
			}
			int n = 2 + (int)rnd(2);
			w.eff[0].write(5);
			int oc = pick_outcome();
			std::vector<T> hs;
			hs.reserve(n);
			hs.push_back(body<T>(&w, param(&w, 0), w.p ? (int)rnd(2) : 0, oc));
			for (int i = 1; i < n; i++) hs.push_back(hs[0]);
			w.certain[0].set(n);
			std::vector<int> what(n);
			for (auto& x : what) x = (int)rnd(3);
			int starts = 0;
			for (auto x : what) starts += x != 0;
			parallel(n, [&](int t) {
				T mine = std::move(hs[t]);
				if (what[t] == 2) {
					T c = mine;
					w.startcalls[0].add(1);
					w.certain[0].add(-1);
					c.start();
				} else if (what[t] == 1) {
					w.startcalls[0].add(1);
					w.certain[0].add(-1);
					mine.start();
					return;
				} else
					w.certain[0].add(-1);
			});
			hs.clear();
			if (pu) pu->stop();
			CHECK(w.begun[0].get() == (starts ? 1 : 0), "%d start() calls, body ran %d times", starts, w.begun[0].get());
			CHECK(w.ended[0].get() == w.begun[0].get(), "task never finished");
			CHECK(w.freed[0].get() == 1, "frame never destroyed");
			vrt_nontrivial();
			vrt_count("starts", starts);
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"lazy", lazy, 0}, {"eager", eager, 0}, {"race", race, 0})
