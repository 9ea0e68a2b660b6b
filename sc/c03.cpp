// C03: multi consumer events
#include "ev.h"
namespace {
	template<class EV, bool AUTO>
	void mixed() {
		reset_globals();
		bool init = coin(4);
		world<EV> w(init);
		std::optional<pump> p;
		if (coin(4)) {
			p.emplace(1);
			w.p = &*p;
			w.fallback = &*p;
		}
		int nt = 2 + (int)rnd(3);
		std::vector<std::vector<int>> prog(nt);
		for (auto& t : prog)
			for (int k = 1 + (int)rnd(nt > 3 ? 3 : 5); k > 0; k--) t.push_back((int)rnd(AUTO ? 12 : 14));
		parallel(nt, [&](int t) {
			for (int c : prog[t]) {
				if (c < 5) {
					int reg;
					int id = w.nid.add(1);
					waiter(w, id, &reg, (int)rnd(w.p ? 3 : 2));
					w.close(reg);
				} else if (c < 9) w.do_set();
				else if (c == 9 || c >= 12) w.do_reset();
				else w.do_query(c - 10);
			}
		});
		if (p) p->stop();
		w.fallback = nullptr;
		finish(w, init, AUTO);
		if (live_co()) {
			bool r = w.ev.set();
			CHECK(r, "set() returned false although %d coroutines were waiting", w.started.get() - w.resumed.get());
		}
		CHECK(live_co() == 0, "%d coroutine(s) not resumed by a set()", live_co());
	}
	// waits only (many registrations racing) against a few sets
	template<class EV, bool AUTO>
	void herd() {
		reset_globals();
		world<EV> w(false);
		int nt = 2 + (int)rnd(3);
		int per = 1 + (int)rnd(3);
		parallel(nt, [&](int t) {
			if (t == 0) {
				for (int k = 1 + (int)rnd(3); k > 0; k--) {
					for (int y = (int)rnd(5); y > 0; y--) vrt_yield();
					w.do_set();
				}
			} else
				for (int k = 0; k < per; k++) {
					int reg;
					int id = w.nid.add(1);
					waiter(w, id, &reg, (int)rnd(2));
					w.close(reg);
				}
		});
		finish(w, false, AUTO);
		if (live_co()) {
			bool r = w.ev.set();
			CHECK(r, "set() returned false although coroutines were waiting");
		}
		CHECK(live_co() == 0, "%d coroutine(s) not resumed by a set()", live_co());
	}
	template<class EV>
	co vis_waiter(EV& ev, data& d, mon<int>& ok, pump* p, int how) {
		if (how == 0) co_await ev;
		else if (how == 1) co_await ev.wait();
		else co_await ev.wait(p);
		CHECK(d.read() == 7, "data written before set() not visible");
		ok.add(1);
	}
	template<class EV, bool AUTO>
	void visible() {
		reset_globals();
		EV ev;
		data d;
		mon<int> ok;
		std::optional<pump> p;
		if (coin(3)) p.emplace(1);
		bool fb = coin();
		int nw = AUTO ? 1 + (int)rnd(2) : 1 + (int)rnd(3);
		parallel(nw + 1, [&](int t) {
			if (t > 0) vis_waiter(ev, d, ok, p ? &*p : nullptr, (int)rnd(p ? 3 : 2));
			else {
				d.write(7);
				bool r = ev.set(p && fb ? &*p : nullptr);
				vrt_count(r ? "set_true" : "set_false", 1);
			}
		});
		if (p) p->stop();
		if (!AUTO) CHECK(ok.get() == nw, "%d of %d waiters resumed", ok.get(), nw);
		else CHECK(ok.get() >= 1, "nobody passed although the event was set");
		while (live_co()) CHECK(ev.set(), "set() found no waiter"); // auto: those that came too late
		CHECK(ok.get() == nw, "%d resumptions for %d waiters", ok.get(), nw);
		vrt_nontrivial();
	}
	template<class EV>
	co one_wait(EV& ev, data* d, int n, mon<int>& ok) {
		co_await ev;
		for (int i = 0; i < n; i++) CHECK(d[i].read() == i + 1, "data of producer %d not visible", i);
		ok.add(1);
	}
	template<class EV>
	void collapse() {
		reset_globals();
		EV ev;
		data d[3];
		mon<int> ok;
		std::atomic<int> finished{0};
		int n = 2 + (int)rnd(2);
		parallel(n + 1, [&](int t) {
			if (t == 0) {
				while (finished.load(std::memory_order_relaxed) < n) vrt_yield();
				one_wait(ev, d, n, ok);
			} else {
				d[t - 1].write(t);
				ev.set();
				finished.fetch_add(1, std::memory_order_relaxed);
			}
		});
		CHECK(ok.get() == 1, "event set before the wait did not let it pass");
		vrt_count("collapsed_sets", n);
		vrt_nontrivial();
	}
	// producers publish and set; one collector waits in a loop: every set() must lead to a look at its data
	template<class EV>
	struct box {
		EV ev{false};
		std::atomic<int> published[4] = {};
		data items[4];
		int nprod = 0;
		mon<int> seen, wakes;
	};
	template<class EV>
	co collector(box<EV>& b) {
		bool got[4] = {};
		int n = 0;
		while (n < b.nprod) {
			co_await b.ev;
			b.wakes.add(1);
			CHECK(b.wakes.get() < 100, "collector resumed without a set()");
			for (int i = 0; i < b.nprod; i++)
				if (!got[i] && b.published[i].load(std::memory_order_relaxed)) {
					got[i] = true;
					n++;
				}
		}
		b.seen.set(n);
	}
	template<class EV>
	void collect() {
		reset_globals();
		box<EV> b;
		b.nprod = 2 + (int)rnd(2);
		parallel(b.nprod + 1, [&](int t) {
			if (t == 0) collector(b);
			else {
				b.published[t - 1].store(1, std::memory_order_relaxed);
				b.ev.set();
			}
		});
		CHECK(live_co() == 0, "collector still waits although every producer called set() after publishing");
		CHECK(b.seen.get() == b.nprod, "collector saw %d of %d", b.seen.get(), b.nprod);
		vrt_count("collected_items", b.nprod);
		vrt_sig(b.wakes.get());
		vrt_nontrivial();
	}
	// waiters that set, reset and wait again from inside their resumption
	template<class EV>
	co chain(EV& ev, data& d, mon<int>& ok, int n) {
		for (int i = 0; i < n; i++) {
			co_await ev;
			d.write(d.read() + 1); // resumed one after the other inside set() calls: ordered
			ok.add(1);
		}
	}
	template<class EV, bool AUTO>
	void rewait() {
		reset_globals();
		EV ev;
		data d;
		mon<int> ok;
		int nw = 1 + (int)rnd(4), rounds = 1 + (int)rnd(3);
		for (int i = 0; i < nw; i++) chain(ev, d, ok, rounds);
		for (int r = 0; r < rounds; r++) {
			int before_ = ok.get();
			bool res = ev.set();
			CHECK(res, "set() found no waiter");
			if (AUTO) {
				CHECK(ok.get() == before_ + nw, "%d of %d waiters resumed by one set()", ok.get() - before_, nw);
				CHECK(!ev.is_set(), "auto reset event still set after resuming waiters");
			}
			CHECK(AUTO || ok.get() == nw * rounds, "set event did not let later waits pass");
			if (!AUTO) break;
		}
		CHECK(ok.get() == nw * rounds, "%d of %d waits passed", ok.get(), nw * rounds);
		if (AUTO) {
			CHECK(!ev.set(), "set() claims to have resumed somebody");
			CHECK(ev.is_set(), "not set");
			CHECK(!ev.set(), "set() claims to have resumed somebody");
			chain(ev, d, ok, 1);
			CHECK(!ev.is_set(), "wait did not reset the event");
			chain(ev, d, ok, 1);
			CHECK(ev.is_awaited() && live_co() == 1, "a second wait passed on one set()");
			CHECK(ev.set(), "set() did not resume");
		} else {
			ev.reset();
			CHECK(!ev.set(), "set() without waiter returned true");
			CHECK(!ev.set(), "set() of a set event returned true");
		}
		check_quiescent();
		vrt_sig(nw * 8 + rounds);
		vrt_nontrivial();
	}
	using MC = asyncpp::multi_consumer_event;
	using MA = asyncpp::multi_consumer_auto_reset_event;
} // namespace
SCENARIOS({"manual_mixed", mixed<MC, false>, 0}, {"auto_mixed", mixed<MA, true>, 0}, {"manual_herd", herd<MC, false>, 0}, {"auto_herd", herd<MA, true>, 0},
		  {"manual_visible", visible<MC, false>, 0}, {"auto_visible", visible<MA, true>, 0}, {"manual_collapse", collapse<MC>, VRT_NOSTALE},
		  {"auto_collapse", collapse<MA>, 0}, {"auto_collect", collect<MA>, 0}, {"manual_rewait", rewait<MC, false>, VRT_SINGLE},
		  {"auto_rewait", rewait<MA, true>, VRT_SINGLE})
