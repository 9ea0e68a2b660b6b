// C02: single consumer events
#include "ev.h"
namespace {
	template<class EV>
	co consumer(world<EV>& w, int n, int* firstreg, std::vector<int>& resets, std::vector<int>& how) {
		for (int k = 0; k < n; k++) {
			int id = w.nid.add(1);
			int o = w.hist.begin(REG, id);
			if (k == 0) *firstreg = o;
			w.started.add(1);
			if (how[k] == 0) co_await w.ev;
			else if (how[k] == 1) co_await w.ev.wait();
			else co_await w.ev.wait(w.p);
			{
				vrt_ignore i;
				w.close(o);
				int d = w.hist.begin(DONE, id);
				w.hist.end(d);
				w.resumed.add(1);
			}
			if (resets[k] == 0) w.do_reset();
			else if (resets[k] == 1) w.do_query(0);
		}
	}
	template<class EV, bool AUTO>
	void mixed() {
		reset_globals();
		bool init = coin(4);
		world<EV> w(init);
		std::optional<pump> p;
		if (coin(3)) {
			p.emplace(1);
			w.p = &*p;
			w.fallback = &*p;
		}
		int nt = 2 + (int)rnd(2);
		int nw = 1 + (int)rnd(4);
		std::vector<int> resets, how;
		for (int k = 0; k < nw; k++) {
			resets.push_back((int)rnd(AUTO ? 6 : 3));
			how.push_back((int)rnd(w.p ? 3 : 2));
		}
		std::vector<std::vector<int>> prog(nt);
		for (auto& t : prog)
			for (int k = 1 + (int)rnd(4); k > 0; k--) t.push_back((int)rnd(10));
		parallel(nt, [&](int t) {
			if (t == 0) {
				if (coin()) w.do_set();
				int reg = -1;
				consumer(w, nw, &reg, resets, how);
				w.close(reg);
				// order with respect to our own later operations is what matters
			}
			for (int c : prog[t]) {
				if (c < 6) w.do_set();
				else if (c < 8) w.do_reset();
				else w.do_query(c - 8);
			}
		});
		if (p) p->stop();
		w.fallback = nullptr;
		finish(w, init, AUTO);
		// release the consumer
		for (int k = 0; k < nw + 2 && live_co(); k++) w.ev.set();
		CHECK(live_co() == 0, "consumer never resumed by set()");
	}
	// data written before set() must be visible to the resumed coroutine; ping-pong between two coroutines
	template<class EV>
	co ping(EV& a, EV& b, data& d, int n, bool first, bool manual, mon<int>& rounds) {
		for (int k = 0; k < n; k++) {
			if (first) {
				d.write(d.read() + 1);
				b.set();
			}
			co_await a;
			if (manual) a.reset();
			rounds.add(1);
			if (!first) {
				d.write(d.read() + 1);
				b.set();
			}
		}
	}
	template<class EV, bool AUTO>
	void pingpong() {
		reset_globals();
		EV a, b;
		data d;
		mon<int> rounds;
		int n = 1 + (int)rnd(6);
		parallel(2, [&](int t) {
			if (t == 0) ping(a, b, d, n, true, !AUTO, rounds);
			else ping(b, a, d, n, false, !AUTO, rounds);
		});
		check_quiescent();
		CHECK(d.read() == 2 * n, "lost update: %ld of %d", d.read(), 2 * n);
		vrt_count("rounds", rounds.get());
		vrt_nontrivial();
	}
	// several producers publish an item each and set(); the consumer must end up seeing all of them
	template<class EV>
	struct box {
		EV ev{false};
		data items[4];
		std::atomic<int> published[4] = {};
		int nprod = 0;
		mon<int> seen, wakes;
	};
	template<class EV>
	co collector(box<EV>& b, bool manual, int quota) {
		bool got[4] = {};
		int n = 0;
		while (n < b.nprod && quota-- > 0) {
			co_await b.ev;
			if (manual) b.ev.reset();
			b.wakes.add(1);
			for (int i = 0; i < b.nprod; i++) {
				// relaxed on purpose: only the event may provide the ordering that makes the item readable
				if (!got[i] && b.published[i].load(std::memory_order_relaxed)) {
					got[i] = true;
					n++;
				}
			}
		}
		b.seen.set(n);
	}
	template<class EV>
	void collect() { // no set() may be lost when sets collapse
		reset_globals();
		box<EV> b;
		b.nprod = 2 + (int)rnd(2);
		parallel(b.nprod + 1, [&](int t) {
			if (t == 0) collector(b, false, 50);
			else {
				b.items[t - 1].write(t);
				b.published[t - 1].store(1, std::memory_order_relaxed);
				b.ev.set();
			}
		});
		CHECK(live_co() == 0, "a set() was lost: the collector waits although every producer called set() after publishing (saw a subset)");
		CHECK(b.seen.get() == b.nprod, "collector saw %d of %d", b.seen.get(), b.nprod);
		vrt_count("collected_items", b.nprod);
		vrt_count("collector_wakeups", b.wakes.get());
		vrt_sig(b.wakes.get());
		vrt_nontrivial();
	}
	// all sets precede the wait: every producer's data must be visible to the one that passes
	template<class EV>
	co one_wait(EV& ev, data* d, int n, mon<int>& ok) {
		co_await ev;
		for (int i = 0; i < n; i++) CHECK(d[i].read() == i + 1, "data of producer %d not visible", i);
		ok.set(1);
	}
	template<class EV>
	void collapse() {
		reset_globals();
		EV ev;
		data d[3];
		mon<int> ok;
		std::atomic<int> finished{0};
		int n = 2 + (int)rnd(2);
		parallel(n + 1, [&](int t) {
			if (t == 0) {
				// relaxed: the counter itself gives no ordering, only set() does
				while (finished.load(std::memory_order_relaxed) < n) vrt_yield();
				one_wait(ev, d, n, ok);
			} else {
				d[t - 1].write(t);
				ev.set();
				finished.fetch_add(1, std::memory_order_relaxed);
			}
		});
		CHECK(ok.get() == 1, "event set before the wait did not let it pass");
		CHECK(live_co() == 0, "coroutine lost");
		vrt_count("collapsed_sets", n);
		vrt_nontrivial();
	}
	// set() by one thread, one waiter; data visibility, both orders, with explicit dispatcher
	template<class EV>
	co vis_waiter(EV& ev, data& d, mon<int>& ok, pump* p, int how) {
		if (how == 0) co_await ev;
		else if (how == 1) co_await ev.wait();
		else co_await ev.wait(p);
		CHECK(d.read() == 7, "data not visible");
		ok.add(1);
	}
	template<class EV>
	void visible() {
		reset_globals();
		EV ev;
		data d;
		mon<int> ok;
		std::optional<pump> p;
		if (coin(3)) p.emplace(1);
		bool fb = coin();
		int how = (int)rnd(p ? 3 : 2);
		parallel(2, [&](int t) {
			if (t == 0) vis_waiter(ev, d, ok, p ? &*p : nullptr, how);
			else {
				d.write(7);
				bool r = ev.set(p && fb ? &*p : nullptr);
				vrt_count(r ? "set_true" : "set_false", 1);
			}
		});
		p.reset();
		CHECK(ok.get() == 1, "waiter resumed %d times", ok.get());
		check_quiescent();
		vrt_nontrivial();
	}
	using SC = asyncpp::single_consumer_event;
	using SA = asyncpp::single_consumer_auto_reset_event;
} // namespace
SCENARIOS({"manual_mixed", mixed<SC, false>, 0}, {"auto_mixed", mixed<SA, true>, 0}, {"manual_pingpong", pingpong<SC, false>, 0}, {"auto_pingpong", pingpong<SA, true>, 0},
		  {"auto_collect", collect<SA>, 0}, {"manual_collapse", collapse<SC>, VRT_NOSTALE}, {"auto_collapse", collapse<SA>, 0}, {"manual_visible", visible<SC>, 0},
		  {"auto_visible", visible<SA>, 0})
