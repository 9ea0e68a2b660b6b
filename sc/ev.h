// Monitors shared by the event checks (C02, C03).
#pragma once
#include "hd.h"
#include <asyncpp/event.h>
#include <atomic>
#include <optional>
using namespace h;
namespace {
	enum { REG, DONE, SET, RESET, ISSET, ISAW };
	const char* const names[] = {"wait", "resumed", "set", "reset", "is_set", "is_awaited"};
	// AUTO: resets itself when it lets somebody through. MULTI: any number of waiters.
	template<bool AUTO>
	struct model {
		bool set = false;
		std::vector<int> waiting;
		u64 passed = 0;
		u64 mustend = 0; // waits that never resumed: may not be let through
		bool let(int i) {
			if ((mustend >> i) & 1) return false;
			passed |= 1ull << i;
			return true;
		}
		bool apply(const op& o) {
			switch (o.kind) {
			case REG:
				if (set) {
					if (AUTO) set = false;
					return let((int)o.a);
				}
				waiting.push_back((int)o.a);
				return true;
			case DONE:
				if (!((passed >> o.a) & 1)) return false;
				passed &= ~(1ull << o.a);
				return true;
			case SET: {
				bool had = !waiting.empty();
				if (o.r != -1 && o.r != (had ? 1 : 0)) return false;
				for (int i : waiting)
					if (!let(i)) return false;
				waiting.clear();
				if (AUTO) set = had ? set : true;
				else set = true;
				return true;
			}
			case RESET: set = false; return true;
			case ISSET: return o.r == (set ? 1 : 0);
			case ISAW: return o.r == (waiting.empty() ? 0 : 1);
			}
			return false;
		}
		u64 key() const {
			u64 k = hmix(set, passed), s = 0;
			for (int x : waiting) s |= 1ull << x;
			return hmix(k, s);
		}
	};
	template<class EV>
	struct world {
		EV ev;
		history hist;
		mon<int> nid, resumed, started;
		pump* p = nullptr;
		asyncpp::dispatcher* fallback = nullptr;
		explicit world(bool set) : ev(set) {}
		void close(int o) {
			vrt_ignore i;
			if (!hist.ops[o].done) hist.end(o, 0);
		}
		void do_set() {
			int o = hist.begin(SET);
			bool r = ev.set(fallback && coin() ? fallback : nullptr);
			hist.end(o, r);
			vrt_count(r ? "set_true" : "set_false", 1);
		}
		void do_query(int c) {
			if (c == 0) {
				int o = hist.begin(ISSET);
				bool r = ev.is_set();
				hist.end(o, r);
			} else {
				int o = hist.begin(ISAW);
				bool r = ev.is_awaited();
				hist.end(o, r);
			}
		}
		void do_reset() {
			int o = hist.begin(RESET);
			ev.reset();
			hist.end(o);
		}
	};
	template<class EV>
	void finish(world<EV>& w, bool initially, bool is_auto) {
		vrt_ignore ig;
		u64 stuck = 0;
		for (auto& o : w.hist.ops)
			if (o.kind == REG) stuck |= 1ull << o.a;
		for (auto& o : w.hist.ops)
			if (o.kind == DONE) stuck &= ~(1ull << o.a);
		for (size_t i = 0; i < w.hist.ops.size(); i++)
			if (!w.hist.ops[i].done) w.hist.end((int)i, 0);
		int r;
		if (is_auto) {
			model<true> m;
			m.set = initially;
			m.mustend = stuck;
			r = linearizable(w.hist.ops, m);
		} else {
			model<false> m;
			m.set = initially;
			m.mustend = stuck;
			r = linearizable(w.hist.ops, m);
		}
		if (r == 0) {
			w.hist.dump(names);
			vrt_fail("oracle", "history is not explained by an event (%d wait(s) not resumed)", __builtin_popcountll(stuck));
		}
		vrt_count(r < 0 ? "inconclusive_histories" : "histories_checked", 1);
		vrt_count("waits", w.started.get());
		vrt_count("resumptions", w.resumed.get());
		vrt_count("operations", w.hist.ops.size());
		w.hist.signature();
		if (w.hist.overlapped() && w.started.get()) vrt_nontrivial();
		w.hist.dump(names);
	}
	// a coroutine waiting once
	template<class EV>
	co waiter(world<EV>& w, int id, int* reg, int how) {
		int o = *reg = w.hist.begin(REG, id);
		w.started.add(1);
		if (how == 0) co_await w.ev;
		else if (how == 1) co_await w.ev.wait();
		else co_await w.ev.wait(w.p);
		{
			vrt_ignore i;
			w.close(o);
			int d = w.hist.begin(DONE, id);
			w.hist.end(d);
			w.resumed.add(1);
		}
		(void)reg;
	}
	// release everybody still waiting so that nothing leaks. Everything before is judged already.
	template<class EV>
	void drain(world<EV>& w) {
		w.ev.set();
		CHECK(!w.ev.is_awaited(), "event still awaited after set()");
	}
} // namespace
