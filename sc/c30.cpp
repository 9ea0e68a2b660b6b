// C30: coroutines resume on the dispatcher they asked for
#include "hd.h"
#include <asyncpp/channel.h>
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/latch.h>
#include <asyncpp/queue.h>
#include <asyncpp/simple_dispatcher.h>
#include <asyncpp/thread_pool.h>
#include <asyncpp/timer.h>
#include <optional>
using namespace h;
namespace {
	using asyncpp::dispatcher;
	const int ND = 3;
	// ------------------------------------------------------------------ every combination, one thread
	struct waiter {
		int how = 0;				   // 0 plain, 1 explicit
		dispatcher* named = nullptr;   // given to wait()/resume_on()
		dispatcher* at = nullptr;	   // current when it suspends
		dispatcher* expect = nullptr;  // nullptr: inline in the waking call
		bool done = false, checked = false;
		dispatcher* seen = nullptr;
		bool in_wake = false;
	};
	struct world {
		std::vector<std::unique_ptr<manual>> d;
		std::vector<std::unique_ptr<waiter>> w;
		bool waking = false;
		dispatcher* waker_current = nullptr;
		int pushes = 0;
		world() {
			for (int i = 0; i < ND; i++) d.push_back(std::make_unique<manual>(i));
		}
		dispatcher* any(int none = 3) { return coin(none) ? nullptr : d[rnd(ND)].get(); }
		int pushed() {
			int n = 0;
			for (auto& x : d) n += x->pushed;
			return n;
		}
		waiter* make() {
			vrt_ignore i;
			w.push_back(std::make_unique<waiter>());
			waiter* x = w.back().get();
			x->how = (int)rnd(2);
			x->named = any();
			x->at = any();
			vrt_sig(x->how * 100 + (x->named ? ((manual*)x->named)->id + 1 : 0) * 10 + (x->at ? ((manual*)x->at)->id + 1 : 0));
			return x;
		}
		void resumed(waiter* x) {
			CHECK(!x->done, "coroutine resumed twice");
			x->done = true;
			x->seen = dispatcher::current();
			x->in_wake = waking;
		}
		// start a coroutine that has to suspend (or not)
		template<class F>
		void start(waiter* x, bool ready, F&& f) {
			int before = pushed();
			{
				as_current c(x->at);
				f();
				CHECK(dispatcher::current() == x->at, "current dispatcher changed by suspending");
			}
			CHECK(pushed() == before, "a wait pushed something to a dispatcher");
			CHECK(x->done == ready, ready ? "a wait that need not suspend did" : "a wait did not suspend");
			if (ready) {
				CHECK(x->seen == x->at, "a wait that need not suspend moved to another dispatcher");
				x->checked = true;
			}
		}
		// make a call that wakes the given waiters and nobody else
		template<class F>
		void wake(const std::vector<waiter*>& who, dispatcher* fallback, F&& f, int only = -1) {
			dispatcher* wc = any();
			vrt_sig(wc ? ((manual*)wc)->id + 1 : 0);
			std::vector<int> want(ND, 0);
			for (auto& x : d) want[x->id] = x->pushed;
			for (auto x : who) {
				dispatcher* e = x->how == 0 ? x->at : x->named;
				if (!e) e = fallback;
				x->expect = e;
				if (e) want[((manual*)e)->id]++;
			}
			{
				as_current c(wc);
				waking = true;
				f();
				waking = false;
				CHECK(dispatcher::current() == wc, "current dispatcher changed by a waking call");
			}
			for (auto& x : d) CHECK(x->pushed == want[x->id], "%d tasks pushed to a dispatcher instead of %d", x->pushed, want[x->id]);
			for (auto x : who)
				if (x->expect) CHECK(!x->done, "coroutine did not wait for its dispatcher");
				else {
					CHECK(x->done && x->in_wake, "coroutine without a dispatcher was not resumed in the waking call");
					CHECK(x->seen == wc, "current dispatcher changed inside the waking call");
					x->checked = true;
					vrt_count("inline", 1);
				}
			for (auto& x : w)
				if (std::find(who.begin(), who.end(), x.get()) == who.end()) CHECK(x->done == x->checked, "a coroutine was resumed by an unrelated call");
			// let the dispatchers run in any order
			std::vector<int> order;
			for (int i = 0; i < ND; i++) order.insert(order.begin() + rnd(order.size() + 1), i);
			for (int i : order) d[i]->run_all();
			for (auto x : who)
				if (x->expect) {
					CHECK(x->done && !x->in_wake && x->seen == x->expect, "coroutine %s", !x->done ? "was not resumed" : "was resumed on another dispatcher");
					x->checked = true;
					vrt_count("dispatched", 1);
				}
		}
		~world() {
			for (auto& x : w) CHECK(x->done && x->checked, "coroutine was never resumed");
		}
	};
	template<class E>
	co on_event(world* w, waiter* x, E* e) {
		if (x->how == 0) co_await *e;
		else if (x->named || coin()) co_await e->wait(x->named);
		else co_await e->wait();
		w->resumed(x);
	}
	template<class E>
	void event_case(world& w, int waiters) {
		E e;
		int rounds = 1 + (int)rnd(2);
		for (int r = 0; r < rounds; r++) {
			std::vector<waiter*> who;
			for (int i = 0; i < waiters; i++) {
				waiter* x = w.make();
				who.push_back(x);
				w.start(x, false, [&]() { on_event(&w, x, &e); });
			}
			dispatcher* fb = w.any();
			bool omit = !fb && coin();
			w.wake(who, fb, [&]() { omit ? e.set() : e.set(fb); });
			constexpr bool manual_reset = std::is_same_v<E, asyncpp::single_consumer_event> || std::is_same_v<E, asyncpp::multi_consumer_event>;
			if constexpr (!manual_reset) {
				e.set(w.any());
			}
			waiter* x = w.make();
			w.start(x, true, [&]() { on_event(&w, x, &e); });
			if constexpr (manual_reset) e.reset();
		}
	}
	void latch_case(world& w) {
		asyncpp::latch l(2);
		std::vector<waiter*> who;
		int n = 1 + (int)rnd(3);
		for (int i = 0; i < n; i++) {
			waiter* x = w.make();
			who.push_back(x);
			w.start(x, false, [&]() { on_event(&w, x, &l); });
		}
		w.wake({}, nullptr, [&]() { l.decrement(); });
		w.wake(who, nullptr, [&]() { l.decrement(); });
		waiter* x = w.make();
		w.start(x, true, [&]() { on_event(&w, x, &l); });
	}
	using chan = asyncpp::channel<int>;
	co ch_read(world* w, waiter* x, chan* c, int want) {
		std::optional<int> r;
		if (x->how == 0) r = co_await c->read();
		else r = co_await c->read().resume_on(x->named);
		CHECK(r.value_or(-1) == want, "read %d instead of %d", r.value_or(-1), want);
		w->resumed(x);
	}
	co ch_write(world* w, waiter* x, chan* c, int v, bool want) {
		bool r;
		if (x->how == 0) r = co_await c->write(v);
		else r = co_await c->write(v).resume_on(x->named);
		CHECK(r == want, "write returned %d", (int)r);
		w->resumed(x);
	}
	co plain_read(chan* c, int want) {
		auto r = co_await c->read();
		CHECK(r.value_or(-1) == want, "read %d instead of %d", r.value_or(-1), want);
	}
	co plain_write(chan* c, int v) {
		bool r = co_await c->write(v);
		CHECK(r, "write failed");
	}
	void channel_case(world& w) {
		chan c;
		int n = 1 + (int)rnd(3);
		bool readers = coin(), close = coin(4);
		std::vector<waiter*> who;
		for (int i = 0; i < n; i++) {
			waiter* x = w.make();
			who.push_back(x);
			w.start(x, false, [&]() { readers ? ch_read(&w, x, &c, close ? -1 : i) : ch_write(&w, x, &c, i, !close); });
		}
		if (close) w.wake(who, nullptr, [&]() { c.close(); });
		else
			for (int i = 0; i < n; i++)
				w.wake({who[i]}, nullptr, [&]() {
					if (readers) {
						if (coin()) CHECK(c.try_write(i), "try_write failed");
						else plain_write(&c, i);
					} else {
						if (coin()) CHECK(c.try_read().value_or(-1) == i, "try_read is wrong");
						else plain_read(&c, i);
					}
				});
		if (!close) c.close();
		waiter* x = w.make();
		w.start(x, true, [&]() { ch_read(&w, x, &c, -1); });
	}
	using que = asyncpp::queue<int>;
	co q_pop(world* w, waiter* x, que* q, int want) {
		std::optional<int> r;
		if (x->how == 0) r = co_await q->pop();
		else r = co_await q->pop().resume_on(x->named);
		CHECK(r.value_or(-1) == want, "popped %d instead of %d", r.value_or(-1), want);
		w->resumed(x);
	}
	co q_push(world* w, waiter* x, que* q, int v, bool want) {
		bool r;
		if (x->how == 0) r = co_await q->push(int(v));
		else r = co_await q->push(int(v)).resume_on(x->named);
		CHECK(r == want, "push returned %d", (int)r);
		w->resumed(x);
	}
	co plain_pop(que* q, int want) {
		auto r = co_await q->pop();
		CHECK(r.value_or(-1) == want, "popped %d instead of %d", r.value_or(-1), want);
	}
	co plain_push(que* q, int v) {
		bool r = co_await q->push(int(v));
		CHECK(r, "push failed");
	}
	void queue_case(world& w) {
		dispatcher* fb = w.any();
		// fresh memory full of garbage for each queue, so that nothing is right by accident
		auto raw = [&]() {
			void* m = ::operator new(sizeof(que));
			memset(m, 0xa5, sizeof(que));
			return m;
		};
		auto drop = [&](que* x) {
			x->~que();
			::operator delete((void*)x);
		};
		que* p = new (raw()) que(2, fb);
		if (coin(3)) { // the fallback survives moving the queue
			que* o;
			if (coin()) o = new (raw()) que(std::move(*p));
			else {
				o = new (raw()) que(2, w.any());
				*o = std::move(*p);
			}
			drop(p);
			p = o;
		}
		struct at_exit {
			decltype(drop)& d;
			que*& p;
			~at_exit() { d(p); }
		} cleanup{drop, p};
		int n = 1 + (int)rnd(3);
		bool poppers = coin(), clear = coin(4), over = !clear && coin(4);
		std::vector<waiter*> who;
		if (!poppers)
			for (int i = 0; i < 2; i++) {
				waiter* x = w.make();
				w.start(x, true, [&]() { q_push(&w, x, p, i, true); });
			}
		for (int i = 0; i < n; i++) {
			waiter* x = w.make();
			who.push_back(x);
			w.start(x, false, [&]() { poppers ? q_pop(&w, x, p, over ? -1 : i) : q_push(&w, x, p, i + 2, !clear && !over); });
		}
		if (!poppers && clear) { // the pushes that were waiting fail
			w.wake(who, fb, [&]() { p->clear(); });
			CHECK(p->empty(), "queue is not empty after clear()");
			return;
		}
		if (over) { // the queue is assigned over: whoever waited on it fails
			que* o = new (raw()) que(2, w.any());
			w.wake(who, fb, [&]() { *p = std::move(*o); });
			drop(o);
			return;
		}
		for (int i = 0; i < n; i++)
			w.wake({who[i]}, fb, [&]() {
				if (poppers) {
					switch (rnd(3)) {
					case 0: CHECK(p->try_push(int(i)), "try_push failed"); break;
					case 1: CHECK(p->try_emplace(i), "try_emplace failed"); break;
					case 2: plain_push(p, i); break;
					}
				} else {
					if (coin()) CHECK(p->try_pop().value_or(-1) == i, "try_pop is wrong");
					else plain_pop(p, i);
				}
			});
		if (poppers) CHECK(p->try_push(3), "try_push failed");
		waiter* x = w.make();
		int first = poppers ? 3 : n;
		w.start(x, true, [&]() { q_pop(&w, x, p, first); });
		while (p->try_pop()) {}
	}
	struct other_kind { // satisfies the Dispatcher concept without being an asyncpp::dispatcher
		std::vector<std::function<void()>> q;
		void push(std::function<void()> f) { q.push_back(std::move(f)); }
	};
	template<class D>
	co on_defer(world* w, waiter* x, D* d, bool ref) {
		if (ref) co_await asyncpp::defer(*d);
		else co_await asyncpp::defer(d);
		w->resumed(x);
	}
	void defer_case(world& w) {
		waiter* x = w.make();
		if (coin(4)) {
			other_kind k;
			w.start(x, false, [&]() { on_defer(&w, x, &k, coin()); });
			CHECK(k.q.size() == 1, "%zu tasks pushed by defer", k.q.size());
			k.q[0]();
			CHECK(x->done, "defer did not resume");
			x->checked = true;
			return;
		}
		manual* d = (manual*)w.any();
		bool ref = d && coin();
		vrt_sig(ref * 10 + (d ? d->id + 1 : 0));
		int before = w.pushed();
		{
			as_current c(x->at);
			if (coin()) on_defer<manual>(&w, x, d, ref);
			else on_defer<dispatcher>(&w, x, d, ref);
			if (!d) CHECK(x->done && x->seen == x->at, "defer(nullptr) did something");
			else CHECK(!x->done, "defer resumed at once");
			CHECK(w.pushed() == before + (d ? 1 : 0), "defer pushed %d tasks", w.pushed() - before);
		}
		if (d) {
			for (auto& o : w.d)
				if (o.get() != d) CHECK(!o->run_one(), "defer pushed to another dispatcher");
			CHECK(d->run_one() && x->done && x->seen == d, "deferred coroutine is not on its dispatcher");
		}
		x->checked = true;
	}
	void matrix() {
		reset_globals();
		{
			world w;
			int n = 1 + (int)rnd(4);
			for (int i = 0; i < n; i++) {
				int k = (int)rnd(9);
				vrt_sig(k);
				switch (k) {
				case 0: event_case<asyncpp::single_consumer_event>(w, 1); break;
				case 1: event_case<asyncpp::single_consumer_auto_reset_event>(w, 1); break;
				case 2: event_case<asyncpp::multi_consumer_event>(w, 1 + (int)rnd(4)); break;
				case 3: event_case<asyncpp::multi_consumer_auto_reset_event>(w, 1 + (int)rnd(4)); break;
				case 4: latch_case(w); break;
				case 5: channel_case(w); break;
				case 6:
				case 7: queue_case(w); break;
				case 8: defer_case(w); break;
				}
			}
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ the library's dispatchers, waits racing with wakes
	struct station {
		dispatcher* d;
		mon<int> ran;
	};
	template<class P>
	struct tworld {
		std::vector<station> st;
		std::vector<std::unique_ptr<P>> ev;
		bool fallbacks = false; // some calls to set() name a fallback dispatcher
		mon<int> finished, moved, stayed, inlined;
	};
	thread_local bool t_waking; // this thread is inside a waking call
	using E = asyncpp::multi_consumer_event;
	co traveller(tworld<E>* w, int steps, u64 plan) {
		for (int i = 0; i < steps; i++) {
			auto next = [&](u64 n) {
				u64 r = plan % n;
				plan = hmix(plan, i);
				return r;
			};
			dispatcher* at = dispatcher::current();
			int tid = vrt_tid();
			bool waking = t_waking;
			int how = (int)next(4);
			dispatcher* named = next(4) == 0 ? nullptr : w->st[next(w->st.size())].d;
			if (how == 0) {
				co_await asyncpp::defer(named);
				if (named) CHECK(dispatcher::current() == named, "deferred coroutine is not on its dispatcher");
				else CHECK(dispatcher::current() == at && vrt_tid() == tid, "defer(nullptr) moved the coroutine");
				continue;
			}
			E* e = w->ev[next(w->ev.size())].get();
			dispatcher* want = how == 1 ? at : named;
			if (how == 1) co_await *e;
			else co_await e->wait(named);
			dispatcher* now = dispatcher::current();
			bool stayed = now == at && vrt_tid() == tid && t_waking == waking;
			if (want) {
				if (now != want) CHECK(stayed, "coroutine resumed on another dispatcher than it asked for");
				if (now == want && !stayed) w->moved.add(1);
			} else if (!stayed) {
				bool known = false; // a fallback dispatcher
				for (auto& x : w->st) known |= w->fallbacks && x.d == now;
				if (!known) CHECK(t_waking, "coroutine without a dispatcher was not resumed in the waking call");
				w->inlined.add(1);
			}
			if (stayed) w->stayed.add(1);
		}
		w->finished.add(1);
	}
	void provided() {
		reset_globals();
		{
			tworld<E> w;
			std::optional<asyncpp::thread_pool> pool;
			std::optional<asyncpp::simple_dispatcher> simple;
			std::optional<asyncpp::timer> tm;
			std::optional<pump> pm;
			std::thread runner;
			mon<int> before_ok, after_ok;
			pool.emplace(1 + rnd(2));
			simple.emplace();
			bool with_timer = coin(3);
			if (with_timer) tm.emplace();
			pm.emplace(1);
			w.st.push_back({&*pool, {}});
			w.st.push_back({&*simple, {}});
			w.st.push_back({&*pm, {}});
			if (with_timer) w.st.push_back({&*tm, {}});
			int ne = 1 + (int)rnd(3), nc = 1 + (int)rnd(3), ns = 1 + (int)rnd(2);
			for (int i = 0; i < ne; i++) w.ev.push_back(std::make_unique<E>());
			runner = std::thread([&]() {
				CHECK(dispatcher::current() == nullptr, "current() is not null on a fresh thread");
				simple->run();
				CHECK(dispatcher::current() == nullptr, "current() is not null after run()");
			});
			std::vector<u64> plans(nc);
			for (auto& p : plans) p = vrt_rand(~u64{0});
			std::vector<std::vector<int>> sets(ns);
			for (auto& s : sets)
				for (int k = 2 + (int)rnd(5); k > 0; k--) s.push_back((int)rnd(ne));
			int steps = 1 + (int)rnd(4);
			for (int i = 0; i < nc; i++) {
				if (coin()) traveller(&w, steps, plans[i]);
				else {
					dispatcher* d = w.st[rnd(w.st.size())].d;
					d->push([&w, steps, p = plans[i], d]() {
						CHECK(dispatcher::current() == d, "current() does not name the dispatcher that runs the task");
						traveller(&w, steps, p);
						CHECK(dispatcher::current() == d, "current() does not name the dispatcher that runs the task any more");
					});
				}
			}
			w.fallbacks = coin();
			auto set = [&](int i) {
				bool old = std::exchange(t_waking, true);
				w.ev[i]->set(w.fallbacks && coin(4) ? w.st[rnd(w.st.size())].d : nullptr);
				t_waking = old;
			};
			parallel(ns, [&](int t) {
				CHECK(dispatcher::current() == nullptr, "current() is not null on a thread of the program");
				for (int i : sets[t]) {
					set(i);
					if (coin()) w.ev[i]->reset();
				}
			});
			// everything gets set for good until all are through
			for (int guard = 0; w.finished.get() < nc; guard++) {
				CHECK(guard < 2000, "coroutines do not finish");
				for (int i = 0; i < ne; i++) {
					bool old = std::exchange(t_waking, true);
					w.ev[i]->set();
					t_waking = old;
				}
				std::this_thread::sleep_for(std::chrono::milliseconds(1));
			}
			CHECK(dispatcher::current() == nullptr, "current() changed on a thread of the program");
			simple->stop();
			runner.join();
			tm.reset();
			pm->stop();
			pool.reset();
			vrt_count("resumed_elsewhere", w.moved.get());
			vrt_count("stayed", w.stayed.get());
			vrt_count("inline", w.inlined.get());
			vrt_sig(w.moved.get() * 100 + w.stayed.get() * 10 + w.inlined.get());
			if (w.moved.get() + w.inlined.get()) vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ current() on every dispatcher
	void current() {
		reset_globals();
		std::thread main_like([]() {
			CHECK(dispatcher::current() == nullptr, "current() is not null on a fresh thread");
			mon<int> ran;
			auto expect = [&ran](dispatcher* d) {
				CHECK(dispatcher::current() == d, "current() does not name the dispatcher that runs the task");
				ran.add(1);
			};
			int want = 0;
			{ // loops inside loops on one thread
				asyncpp::simple_dispatcher a, b;
				bool deep = coin();
				a.push([&]() {
					expect(&a);
					b.push([&]() {
						expect(&b);
						if (deep) {
							asyncpp::simple_dispatcher c;
							c.push([&]() {
								expect(&c);
								c.stop();
							});
							c.run();
							expect(&b);
						}
						b.stop();
					});
					b.run();
					expect(&a);
				});
				a.push([&]() {
					expect(&a);
					a.stop();
				});
				a.run();
				want += deep ? 6 : 4;
			}
			CHECK(dispatcher::current() == nullptr, "current() is not null after run()");
			{
				manual m;
				as_current c(&m);
				asyncpp::simple_dispatcher a;
				a.push([&]() {
					expect(&a);
					a.stop();
				});
				a.run();
				want++;
				expect(&m);
				want++;
				{
					asyncpp::thread_pool p(1 + rnd(3));
					int n = 1 + (int)rnd(4);
					for (int i = 0; i < n; i++)
						p.push([&, i]() {
							expect(&p);
							if (i == 0) p.push([&]() { expect(&p); });
						});
					want += n + 1;
					expect(&m);
					want++;
				}
				expect(&m);
				want++;
				{
					asyncpp::timer t;
					int n = 1 + (int)rnd(2);
					asyncpp::stop_source src;
					for (int i = 0; i < n; i++) t.push([&]() { expect(&t); });
					t.schedule([&](bool) { expect(&t); }, std::chrono::milliseconds(rnd(3)));
					t.schedule([&](bool) { expect(&t); }, std::chrono::milliseconds(rnd(3)), src.get_token());
					want += n + 2;
					if (coin()) src.request_stop();
					expect(&m);
					want++;
				}
				expect(&m);
				want++;
			}
			CHECK(dispatcher::current() == nullptr, "current() is not null at the end");
			CHECK(ran.get() == want, "%d tasks ran instead of %d", ran.get(), want);
			vrt_count("tasks", want);
			vrt_sig(want);
		});
		main_like.join();
		vrt_nontrivial();
		check_quiescent();
	}
} // namespace
SCENARIOS({"matrix", matrix, VRT_SINGLE}, {"provided", provided, 0}, {"current", current, 0})
