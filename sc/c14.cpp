// C14, C15: timer
#include "hd.h"
#include <asyncpp/timer.h>
#include <atomic>
#include <optional>
#include <thread>
using namespace h;
namespace {
	using clk = std::chrono::steady_clock;
	const long long MS = 1000000;
	const int MAXE = 48, NSRC = 4;
	struct stampt { // moment + virtual time
		moment m;
		long long t = 0;
		static stampt now() {
			stampt s;
			s.m = moment::now();
			s.t = (long long)vrt_now_ns();
			return s;
		}
	};
	enum kind { PUSH, PLAIN, CANCEL, WAIT, CWAIT };
	struct entry {
		int kind = 0, src = -1, fired = 0, flag = -1;
		long long due = 0; // the real due time may be later by the duration of the scheduling call
		stampt call, ret, fire, end, prev_end;
		bool nested = false, inlined = false;
	};
	struct world {
		std::vector<entry> e;
		std::set<int> harness;
		int timer_tid = -1;
		stampt last_end, destroy;
		long long busy = 0;
		struct src {
			std::optional<asyncpp::stop_source> s;
			stampt call, ret; // of the request_stop that took effect first
			int calls = 0, wins = 0;
		} srcs[NSRC];
		asyncpp::timer* t = nullptr;
		data eff[MAXE];
		mon<int> nested, cancels, waits, stops_in_cb;
		bool shutting() {
			vrt_ignore i;
			return destroy.m.set;
		}
		world() {
			vrt_ignore i;
			e.reserve(MAXE);
		}
		~world() {
			vrt_ignore i;
			std::vector<entry>().swap(e);
			std::set<int>().swap(harness);
		}
		void harness_thread() {
			vrt_ignore i;
			harness.insert(vrt_tid());
		}
		int make(int k, long long due, int src, bool nested) {
			vrt_ignore i;
			if ((int)e.size() >= MAXE) return -1;
			e.push_back({});
			auto& x = e.back();
			x.kind = k;
			x.due = due;
			x.src = src;
			x.nested = nested;
			return (int)e.size() - 1;
		}
		void call(int id) {
			vrt_ignore i;
			e[id].call = stampt::now();
		}
		void ret(int id) {
			vrt_ignore i;
			e[id].ret = stampt::now();
		}
		void fire(int id, int flag, bool on_timer = true) {
			auto* cur = asyncpp::dispatcher::current();
			vrt_ignore i;
			auto& x = e[id];
			auto now = stampt::now();
			CHECK(x.fired++ == 0, "entry %d invoked twice (%s, now %s)", id, x.flag ? "true" : "false", flag ? "true" : "false");
			x.flag = flag;
			x.fire = now;
			if (on_timer) {
				CHECK(!harness.count(vrt_tid()), "entry %d invoked on a thread that is not the timer's", id);
				CHECK(timer_tid < 0 || timer_tid == vrt_tid(), "entry %d invoked on another thread than earlier ones", id);
				timer_tid = vrt_tid();
				x.prev_end = last_end;
				CHECK(cur == t, "dispatcher::current() on the timer's thread is not the timer");
			}
			if (x.kind == PUSH) return;
			if (flag) {
				CHECK(now.t >= x.due, "entry %d fired %lld ns early", id, x.due - now.t);
				if (x.src >= 0 && on_timer) {
					auto& s = srcs[x.src];
					CHECK(!(before(s.ret.m, now.m) && s.ret.t < x.due && (x.call.t < x.due)), "entry %d fired with true although it was cancelled before it was due", id);
				}
			} else {
				bool cancelled = x.src >= 0 && srcs[x.src].calls > 0;
				CHECK(cancelled || destroy.m.set, "entry %d got false although it was not cancelled and the timer lives", id);
			}
		}
		void fire_end(int id) {
			vrt_ignore i;
			e[id].end = last_end = stampt::now();
			busy += e[id].end.t - e[id].fire.t;
		}
		void stop(int k) {
			{
				vrt_ignore i;
				if (srcs[k].calls++ == 0) srcs[k].call = stampt::now();
			}
			bool r = srcs[k].s->request_stop();
			vrt_ignore i;
			CHECK(srcs[k].wins + r <= 1, "two request_stop calls returned true");
			if (r) {
				srcs[k].wins++;
				srcs[k].ret = stampt::now();
				cancels.v++;
			}
		}
		void check(bool finished) {
			vrt_ignore ig;
			const long long tol = 50 * MS;
			for (size_t i = 0; i < e.size(); i++) {
				auto& x = e[i];
				if (x.call.m.set && !x.ret.m.set && x.kind != WAIT && x.kind != CWAIT) continue; // threw
				if (finished) CHECK(x.fired == 1, "entry %zu (kind %d, due %lld) was never invoked", i, x.kind, x.due);
				if (!x.fired || x.inlined) continue;
				auto& ready = x.ret.m.set && x.kind < WAIT ? x.ret : x.call;
				long long from = x.kind == PUSH ? ready.t : std::max(x.due, ready.t);
				if (x.src >= 0 && srcs[x.src].ret.m.set) from = std::min(from, std::max(ready.t, srcs[x.src].ret.t));
				if (!vrt_timefuzz()) CHECK(x.fire.t <= from + busy + tol, "entry %zu (kind %d) invoked %lld ns late", i, x.kind, x.fire.t - from);
				if (!vrt_timefuzz() && x.prev_end.m.set && x.kind != PUSH) {
					long long idle = std::max(from, x.prev_end.t); // from here on the timer had nothing else to do
					CHECK(x.fire.t <= idle + 5 * MS, "entry %zu (kind %d) invoked %lld ns after the timer was free to do so", i, x.kind, x.fire.t - idle);
				}
				if (x.kind == PUSH || x.flag != 1) continue;
				for (size_t k = 0; k < e.size(); k++) {
					auto& y = e[k]; // y is due earlier, was scheduled in time, but fired after x
					if (k == i || y.kind == PUSH || (y.src >= 0) != (x.src >= 0) || y.flag != 1 || y.inlined || y.due + (y.ret.t - y.call.t) + 3000 >= x.due) continue;
					auto& yr = y.ret;
					if (yr.m.set && x.prev_end.m.set && before(yr.m, x.prev_end.m) && x.fire.m.step < y.fire.m.step)
						vrt_fail("oracle", "entry %zu (due %lld) fired before entry %zu (due %lld) although both were pending", i, x.due, k, y.due);
				}
			}
		}
	};
	void any_op(world* w, int depth, bool from_cb, bool allow_stop);
	struct late { // the destructor of a callable may use the timer, too
		world* w;
		bool active;
		late(world* ww, bool a) : w(ww), active(a) {}
		late(late&& o) noexcept : w(o.w), active(std::exchange(o.active, false)) {}
		late(const late& o) : w(o.w), active(false) {}
		~late() {
			if (active && !w->shutting()) try {
					w->t->push([]() {});
				} catch (std::logic_error&) {}
		}
	};
	void in_cb(world* w, int depth, int what) {
		if (what == 1) vrt_sleep_ns(1 + rnd(20 * MS));
		if (what == 2) vrt_yield();
		if (what == 3 && depth > 0) any_op(w, depth - 1, true, true);
		if (what == 4 && depth > 0) {
			w->stops_in_cb.add(1);
			w->stop((int)rnd(NSRC));
		}
	}
	std::function<void(bool)> make_cb(world* w, int id, int depth) {
		int what = (int)rnd(6);
		w->eff[id].write(id + 1);
		auto sp = std::make_shared<late>(w, coin(6));
		return [w, id, depth, what, tr = tracked(id), sp](bool f) {
			w->fire(id, f);
			CHECK(tr.get() == id, "callable damaged");
			CHECK(w->eff[id].read() == id + 1, "effects of the scheduling thread not visible");
			in_cb(w, depth, what);
			w->fire_end(id);
		};
	}
	// another clock, with another epoch and unit
	struct oclk {
		using duration = std::chrono::nanoseconds;
		using rep = duration::rep;
		using period = duration::period;
		using time_point = std::chrono::time_point<oclk>;
		static constexpr bool is_steady = true;
		static constexpr long long shift = 3600ll * 1000000000;
		static time_point now() { return time_point(std::chrono::nanoseconds((long long)vrt_now_ns() + shift)); }
		static time_point at(long long ns) { return time_point(std::chrono::nanoseconds(ns + shift)); }
	};
	struct uclk { // coarser; due times are rounded up
		using duration = std::chrono::microseconds;
		using rep = duration::rep;
		using period = duration::period;
		using time_point = std::chrono::time_point<uclk>;
		static constexpr bool is_steady = true;
		static constexpr long long shift = 77000000;
		static time_point now() { return time_point(std::chrono::microseconds((long long)vrt_now_ns() / 1000 - shift)); }
		static time_point at(long long ns) { return time_point(std::chrono::microseconds((ns + 999) / 1000 + 1 - shift)); }
	};
	co waiter(world* w, int id, int form, int depth) {
		int what = (int)rnd(5);
		tracked tr(id);
		w->call(id);
		bool r;
		int tid = vrt_tid();
		auto due = clk::time_point(std::chrono::nanoseconds(w->e[id].due));
		bool thrown = false;
		try {
			if (w->e[id].src >= 0) {
				if (form == 0) r = co_await w->t->wait(due, w->srcs[w->e[id].src].s->get_token());
				else if (form == 2) r = co_await w->t->wait(oclk::at(w->e[id].due), w->srcs[w->e[id].src].s->get_token());
				else if (form == 3) r = co_await w->t->wait(uclk::at(w->e[id].due), w->srcs[w->e[id].src].s->get_token());
				else r = co_await w->t->wait(std::chrono::nanoseconds(w->e[id].due - (long long)vrt_now_ns()), w->srcs[w->e[id].src].s->get_token());
			} else if (form == 0) r = co_await w->t->wait(due);
			else if (form == 2) r = co_await w->t->wait(oclk::at(w->e[id].due));
			else if (form == 3) r = co_await w->t->wait(uclk::at(w->e[id].due));
			else r = co_await w->t->wait(std::chrono::nanoseconds(w->e[id].due - (long long)vrt_now_ns()));
		} catch (std::logic_error&) { thrown = true; }
		CHECK(tr.get() == id, "local damaged");
		if (thrown) {
			CHECK(w->shutting(), "wait() failed with logic_error but the timer lives");
			w->fire(id, w->e[id].due <= (long long)vrt_now_ns(), false);
			vrt_ignore i;
			w->e[id].flag = 2;
			w->e[id].inlined = true;
			co_return;
		}
		bool inl;
		{
			vrt_ignore i;
			inl = vrt_tid() == tid && !w->e[id].ret.m.set; // still inside the call that started the wait
		}
		if (inl) {
			vrt_ignore i;
			w->e[id].inlined = true;
			CHECK(r, "wait() that did not suspend returned false");
		}
		w->fire(id, r, !inl);
		w->waits.add(1);
		if (!inl) {
			in_cb(w, depth, what);
			w->fire_end(id);
		}
	}
	void any_op(world* w, int depth, bool from_cb, bool allow_stop) {
		if (from_cb) w->nested.add(1);
		static const long long delays[] = {0, 0, 1, MS, 2 * MS, 3 * MS, 10 * MS, 200 * MS, 700 * MS, -5 * MS, 2000 * MS};
		long long now = (long long)vrt_now_ns(), due = now + delays[rnd(11)];
		int k = (int)rnd(allow_stop ? 7 : 6);
		if (k == 6) {
			w->stop((int)rnd(NSRC));
			return;
		}
		if (k == 5) k = CANCEL;
		int src = k == CANCEL || k == CWAIT ? (int)rnd(NSRC) : -1;
		if (coin(12)) { // functions that are empty have no effect
			try {
				if (k == PUSH) w->t->push({});
				else if (k == PLAIN) w->t->schedule({}, clk::time_point(std::chrono::nanoseconds(due)));
				else if (k == CANCEL) w->t->schedule({}, clk::time_point(std::chrono::nanoseconds(due)), w->srcs[src].s->get_token());
			} catch (std::logic_error&) { CHECK(w->shutting(), "logic_error but the timer lives"); }
		}
		int id = w->make(k, due, src, from_cb);
		if (id < 0) return;
		try {
			switch (k) {
			case PUSH: {
				auto cb = make_cb(w, id, depth);
				w->call(id);
				w->t->push([cb = std::move(cb)]() { cb(true); });
				w->ret(id);
				break;
			}
			case PLAIN: {
				auto cb = make_cb(w, id, depth);
				w->call(id);
				int form = (int)rnd(4);
				if (form == 0) w->t->schedule(std::move(cb), clk::time_point(std::chrono::nanoseconds(due)));
				else if (form == 1) w->t->schedule(std::move(cb), oclk::at(due));
				else if (form == 2) w->t->schedule(std::move(cb), uclk::at(due));
				else w->t->schedule(std::move(cb), std::chrono::nanoseconds(due - (long long)vrt_now_ns()));
				w->ret(id);
				break;
			}
			case CANCEL: {
				auto cb = make_cb(w, id, depth);
				w->call(id);
				int form = (int)rnd(4);
				if (form == 0) w->t->schedule(std::move(cb), clk::time_point(std::chrono::nanoseconds(due)), w->srcs[src].s->get_token());
				else if (form == 1) w->t->schedule(std::move(cb), oclk::at(due), w->srcs[src].s->get_token());
				else if (form == 2) w->t->schedule(std::move(cb), uclk::at(due), w->srcs[src].s->get_token());
				else w->t->schedule(std::move(cb), std::chrono::nanoseconds(due - (long long)vrt_now_ns()), w->srcs[src].s->get_token());
				w->ret(id);
				break;
			}
			case WAIT:
			case CWAIT:
				waiter(w, id, (int)rnd(4), depth);
				w->ret(id);
				break;
			}
		} catch (std::logic_error&) {
			CHECK(w->shutting(), "logic_error but the timer lives");
		}
	}
	void run(int stop_share) {
		reset_globals();
		{
			world w;
			w.harness_thread();
			for (auto& s : w.srcs) s.s.emplace();
			auto* t = new asyncpp::timer();
			w.t = t;
			int n = 1 + (int)rnd(3), stoppers = stop_share ? (int)rnd(3) : 0;
			if (stop_share > 1) stoppers = 1 + (int)rnd(2);
			std::atomic<int> working{n};
			parallel(n + stoppers, [&](int tid) {
				w.harness_thread();
				if (tid >= n) { // only cancels; may go on while the timer is destroyed and afterwards
					int k = 1 + (int)rnd(4);
					while (k--) {
						if (coin()) vrt_sleep_ns(rnd(12 * MS));
						else vrt_yield();
						w.stop((int)rnd(NSRC));
					}
					return;
				}
				int k = 1 + (int)rnd(5);
				while (k--) {
					any_op(&w, 2, false, stop_share > 0);
					if (coin(3)) vrt_sleep_ns(rnd(5 * MS));
				}
				working.fetch_sub(1);
				if (tid == 0) {
					while (working.load() > 0) vrt_sleep_ns(MS);
					int z = (int)rnd(4);
					if (z == 0) vrt_sleep_ns(12000 * MS);
					else if (z == 1) vrt_sleep_ns(rnd(20 * MS));
					w.check(z == 0 && !vrt_timefuzz());
					{
						vrt_ignore i;
						w.destroy = stampt::now();
					}
					delete t;
					w.check(true);
				}
			});
			w.check(true);
			for (auto& s : w.srcs) {
				vrt_ignore i;
				s.s.reset();
			}
			int fires = 0, falses = 0;
			for (auto& x : w.e) {
				fires += x.fired;
				falses += x.flag == 0;
			}
			vrt_count("entries", w.e.size());
			vrt_count("false", falses);
			vrt_count("cancels", w.cancels.get());
			vrt_count("from_callbacks", w.nested.get());
			vrt_count("waits", w.waits.get());
			vrt_sig(w.e.size() * 100 + falses);
			if (fires > 1) vrt_nontrivial();
		}
		check_quiescent();
	}
	void plain() { run(0); }
	void cancel() { run(1); }
	void cancel_heavy() { run(2); }
	// one entry; request_stop, the due time and destruction race
	void duel() {
		reset_globals();
		{
			world w;
			w.harness_thread();
			for (auto& s : w.srcs) s.s.emplace();
			auto* t = new asyncpp::timer();
			w.t = t;
			long long d = (long long)rnd(3) * MS;
			int ne = 1 + (int)rnd(3);
			bool before_sched = coin(5);
			if (before_sched) w.stop(0);
			bool kill = coin();
			parallel(2, [&](int tid) {
				w.harness_thread();
				if (tid == 0) {
					for (int i = 0; i < ne; i++) {
						int id = w.make(CANCEL, (long long)vrt_now_ns() + d, 0, false);
						auto cb = make_cb(&w, id, 1);
						w.call(id);
						t->schedule(std::move(cb), clk::time_point(std::chrono::nanoseconds(w.e[id].due)), w.srcs[0].s->get_token());
						w.ret(id);
					}
					if (kill) {
						if (coin()) vrt_sleep_ns(d + rnd(3) - 1);
						{
							vrt_ignore i;
							w.destroy = stampt::now();
						}
						delete t;
						w.check(true);
					}
				} else {
					if (coin()) vrt_sleep_ns(d + rnd(3) - 1);
					w.stop(0);
				}
			});
			if (!kill) {
				{
					vrt_ignore i;
					w.destroy = stampt::now();
				}
				delete t;
			}
			w.check(true);
			for (auto& s : w.srcs) {
				vrt_ignore i;
				s.s.reset();
			}
			int falses = 0;
			for (auto& x : w.e) falses += x.flag == 0;
			vrt_count("entries", w.e.size());
			vrt_count("false", falses);
			vrt_sig(falses);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// Work that keeps renewing itself (pushed functions that push, entries rescheduled from their own callback, entries that are
	// scheduled again with a token that was stopped long ago) does not hold up other work.
	struct load {
		asyncpp::timer* t;
		mon<int> runs, done; // runs of the load in total; victims served
		int victims = 0, limit = 0, busy_us = 0;
		asyncpp::stop_source stopped, live, cancelled;
		void renew(int kind) {
			auto again = [this, kind](bool) { run(kind); };
			switch (kind) {
			case 0:
				t->push([this]() { run(0); });
				break;
			case 1: t->schedule(again, clk::now()); break;
			case 2: t->schedule(again, clk::now(), live.get_token()); break;
			default: t->schedule(again, std::chrono::hours(1), stopped.get_token()); break;
			}
		}
		void run(int kind) {
			if (done.get() == victims) return;
			int n = runs.add(1);
			CHECK(n < limit, "%d of %d callbacks that are due wait behind %d runs of work that renews itself", victims - done.get(), victims, n);
			if (busy_us) vrt_sleep_ns(busy_us * 1000);
			renew(kind);
		}
	};
	void busy() {
		reset_globals();
		{
			load l;
			l.stopped.request_stop();
			asyncpp::timer t;
			l.t = &t;
			l.busy_us = 20 + (int)rnd(200);
			int loads = 1 + (int)rnd(3), nv = 1 + (int)rnd(4);
			l.victims = nv;
			long long d = (long long)rnd(3) * MS;
			l.limit = 100 + (int)(loads * (d / 1000 / l.busy_us + 1) * 4);
			int kinds = 0, vk = 0;
			for (int i = 0; i < loads; i++) {
				int k = (int)rnd(4);
				kinds |= 1 << k;
				l.renew(k);
			}
			for (int i = 0; i < nv; i++) {
				int k = (int)rnd(5);
				vk = vk * 5 + k;
				auto served = [&l](bool ok) {
					CHECK(ok, "not cancelled");
					l.done.add(1);
				};
				switch (k) {
				case 0:
					t.push([&l]() { l.done.add(1); });
					break;
				case 1: t.schedule(served, std::chrono::nanoseconds(d)); break;
				case 2: t.schedule(served, std::chrono::nanoseconds(d), l.live.get_token()); break;
				case 3:
					t.schedule(
						[&l](bool ok) {
							CHECK(!ok, "cancelled entry reported as due");
							l.done.add(1);
						},
						std::chrono::hours(1), l.cancelled.get_token());
					break;
				case 4: t.schedule(served, clk::now() + std::chrono::nanoseconds(d)); break;
				}
			}
			if (coin()) vrt_sleep_ns(d);
			l.cancelled.request_stop();
			for (int k = 0; l.done.get() != nv; k++) vrt_sleep_ns(100000);
			vrt_count("load_runs", l.runs.get());
			vrt_sig(kinds * 1000 + vk);
			vrt_sig(l.runs.get());
			vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"plain", plain, 0}, {"plain_exact", plain, VRT_NOLEAP}, {"cancel", cancel, 0}, {"cancel_exact", cancel_heavy, VRT_NOLEAP}, {"duel", duel, 0}, {"busy", busy, 0}, {"busy_exact", busy, VRT_NOLEAP})
