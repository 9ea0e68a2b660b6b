// C10/C11: promise and combinators
#include "h.h"
#include <asyncpp/promise.h>
#include <atomic>
#include <chrono>
#include <optional>
using namespace h;
namespace {
	struct err {
		int v;
	};
	struct msg {
		tracked t;
		std::unique_ptr<data> payload;
		explicit msg(int v) : t(v), payload(std::make_unique<data>()) { payload->write(v * 10L); }
		msg(msg&&) = default;
		int take() const {
			int v = t.get();
			CHECK(payload && payload->read() == v * 10L, "value %d seen without its payload", v);
			return v;
		}
	};
	int code(const std::exception_ptr& e) {
		try {
			std::rethrow_exception(e);
		} catch (const err& x) { return x.v; } catch (...) {
		}
		return -999;
	}
	// uniform access to promise<msg> and promise<void>; outcomes: 0 pending, v>0 fulfilled, v<0 rejected; void: 1 fulfilled
	template<class T>
	struct pa;
	template<>
	struct pa<msg> {
		using P = asyncpp::promise<msg>;
		static int norm(int v) { return v; }
		static bool fulfil(P& p, int v, bool thr) {
			if (!thr) return p.try_fulfill(msg(v));
			try {
				p.fulfill(msg(v));
			} catch (const std::logic_error&) { return false; }
			return true;
		}
		static int get(const P& p) {
			try {
				return p.get().take();
			} catch (const err& e) { return e.v; }
		}
		template<class D>
		static int tget(const P& p, D d) {
			try {
				auto* r = p.get(d);
				return r ? r->take() : 0;
			} catch (const err& e) { return e.v; }
		}
		static int try_get(const P& p) {
			try {
				auto* r = p.try_get();
				return r ? r->take() : 0;
			} catch (const err& e) { return e.v; }
		}
		static int try_get_nt(const P& p) {
			auto r = p.try_get(std::nothrow);
			CHECK(!(r.first && r.second), "both value and exception");
			return r.first ? r.first->take() : r.second ? code(r.second) : 0;
		}
		template<class F>
		static void then(P& p, F f, bool t, bool c) {
			std::function<void(const msg&)> a;
			std::function<void(const std::exception_ptr&)> b;
			if (t) a = [f](const msg& m) { f(m.take()); };
			if (c) b = [f](const std::exception_ptr& e) { f(code(e)); };
			p.then(std::move(a), std::move(b));
		}
		static P made(int v) { return v > 0 ? P::make_fulfilled(msg(v)) : coin() ? P::make_rejected(std::make_exception_ptr(err{v})) : P::make_rejected<err>(v); }
	};
	template<>
	struct pa<void> {
		using P = asyncpp::promise<void>;
		static int norm(int v) { return v > 0 ? 1 : v; }
		static bool fulfil(P& p, int, bool thr) {
			if (!thr) return p.try_fulfill();
			try {
				p.fulfill();
			} catch (const std::logic_error&) { return false; }
			return true;
		}
		static int get(const P& p) {
			try {
				p.get();
				return 1;
			} catch (const err& e) { return e.v; }
		}
		template<class D>
		static int tget(const P& p, D d) {
			try {
				return p.get(d) ? 1 : 0;
			} catch (const err& e) { return e.v; }
		}
		static int try_get(const P& p) {
			try {
				return p.try_get() ? 1 : 0;
			} catch (const err& e) { return e.v; }
		}
		static int try_get_nt(const P& p) {
			auto r = p.try_get(std::nothrow);
			if (r.second) {
				CHECK(r.first, "try_get: rejected promise<void> shown as pending");
				return code(r.second);
			}
			return r.first ? 1 : 0;
		}
		template<class F>
		static void then(P& p, F f, bool t, bool c) {
			std::function<void()> a;
			std::function<void(const std::exception_ptr&)> b;
			if (t) a = [f]() { f(1); };
			if (c) b = [f](const std::exception_ptr& e) { f(code(e)); };
			p.then(std::move(a), std::move(b));
		}
		static P made(int v) { return v > 0 ? P::make_fulfilled() : coin() ? P::make_rejected(std::make_exception_ptr(err{v})) : P::make_rejected<err>(v); }
	};
	template<class P>
	bool reject(P& p, int v, bool thr) {
		switch (rnd(2) + (thr ? 2 : 0)) {
		case 0: return p.try_reject(std::make_exception_ptr(err{v}));
		case 1: return p.template try_reject<err>(v);
		case 2:
			try {
				p.reject(std::make_exception_ptr(err{v}));
			} catch (const std::logic_error&) { return false; }
			return true;
		default:
			try {
				p.template reject<err>(v);
			} catch (const std::logic_error&) { return false; }
			return true;
		}
	}
	enum { SETTLE, READ, AREG, ADONE, ISP, ISF, ISR };
	const char* const names[] = {"settle", "read", "await", "await_done", "is_pending", "is_fulfilled", "is_rejected"};
	struct model {
		int v = 0;
		bool apply(const op& o) {
			switch (o.kind) {
			case SETTLE:
				if (o.r != (v == 0)) return false;
				if (v == 0) v = (int)o.a;
				return true;
			case READ: return o.r == v;
			case AREG: return true;
			case ADONE: return v != 0 && o.r == v;
			case ISP: return o.r == (v == 0);
			case ISF: return o.r == (v > 0);
			case ISR: return o.r == (v < 0);
			}
			return false;
		}
		u64 key() const { return v + 100000; }
	};
	template<class T>
	struct world {
		using A = pa<T>;
		using P = typename A::P;
		history hist;
		mon<int> nval;
		struct cb {
			int kind;	  // 0 settle, 1 then only, 2 catch only, 3 both
			int ran = 0;
			int got = 0;
		};
		std::vector<cb> cbs;
		int new_cb(int kind) {
			vrt_ignore i;
			cbs.push_back({kind});
			return (int)cbs.size() - 1;
		}
		void ran(int id, int v) {
			vrt_ignore i;
			CHECK(cbs[id].ran++ == 0, "callback invoked twice");
			cbs[id].got = v;
		}
		void settle(P& p) {
			int v = 1 + nval.add(1);
			if (coin()) v = -v;
			bool thr = coin();
			int o = hist.begin(SETTLE, A::norm(v));
			bool r = v > 0 ? A::fulfil(p, v, thr) : reject(p, v, thr);
			hist.end(o, r);
		}
		int read(P& p, int how) {
			int o = hist.begin(READ, how);
			int r;
			switch (how) {
			case 0: r = A::try_get(p); break;
			case 1: r = A::try_get_nt(p); break;
			case 2:
			case 3: {
				auto d = how == 2 ? std::chrono::microseconds(rnd(50)) : std::chrono::microseconds(std::chrono::hours(1));
				u64 t0 = vrt_now_ns();
				r = A::tget(p, d);
				if (r == 0) CHECK(vrt_now_ns() - t0 >= (u64)d.count() * 1000, "timed get() gave up before its timeout");
				break;
			}
			default: r = A::get(p); break;
			}
			hist.end(o, r);
			if (how >= 4) CHECK(r != 0, "get() returned without an outcome");
			return r;
		}
		void query(P& p) {
			int k = (int)rnd(3);
			int o = hist.begin(ISP + k);
			bool r = k == 0 ? p.is_pending() : k == 1 ? p.is_fulfilled() : p.is_rejected();
			hist.end(o, r);
		}
		void reg(P& p, bool nested = true) {
			if (coin(16)) { // empty functions have no effect
				if (coin()) p.on_settle({});
				else p.then({}, {});
			}
			int kind = (int)rnd(4);
			int id = new_cb(kind);
			int extra = nested && coin(4) ? 1 + (int)rnd(3) : 0;
			if (kind == 0) {
				p.on_settle([this, id, p, extra]() mutable {
					ran(id, A::try_get_nt(p));
					again(p, extra);
				});
				// the callback keeps a copy of the promise, which dies with the callback
			} else {
				auto f = [this, id, cp = p, extra](int v) {
					P p = cp;
					CHECK(A::try_get_nt(p) == v, "callback got %d but the promise holds another outcome", v);
					ran(id, v);
					again(p, extra);
				};
				A::then(p, f, kind & 1, kind & 2);
			}
		}
		void again(P& p, int extra) {
			if (extra == 1) reg(p, false);
			else if (extra == 2) query(p);
			else if (extra == 3) read(p, 4);
		}
	};
	template<class T>
	co waiter(world<T>& w, typename pa<T>::P p, bool again) {
		int o = w.hist.begin(AREG);
		int r;
		if constexpr (std::is_void_v<T>) {
			try {
				co_await p;
				r = 1;
			} catch (const err& e) { r = e.v; }
		} else {
			try {
				msg& m = co_await p;
				r = m.take();
			} catch (const err& e) { r = e.v; }
		}
		{
			vrt_ignore i;
			if (!w.hist.ops[o].done) w.hist.end(o, 0);
			int d = w.hist.begin(ADONE);
			w.hist.end(d, r);
		}
		if (again) w.read(p, 4);
	}
	template<class T>
	void run(bool blocking) {
		using A = pa<T>;
		reset_globals();
		{
			world<T> w;
			std::optional<typename A::P> root;
			int made = 0;
			if (coin(12)) {
				made = coin() ? 1 + w.nval.add(1) : -(1 + w.nval.add(1));
				root.emplace(A::made(made));
			} else
				root.emplace();
			int nt = 2 + (int)rnd(3);
			std::vector<std::vector<int>> prog(nt);
			for (auto& t : prog)
				for (int k = 1 + (int)rnd(nt > 3 ? 4 : 5); k > 0; k--) t.push_back((int)rnd(24));
			if (blocking) {
				// somebody certainly settles; the others may block
				prog[0].clear();
				for (int y = (int)rnd(4); y > 0; y--) prog[0].push_back(coin() ? 30 : 8);
				prog[0].push_back(0);
			}
			parallel(nt, [&](int t) {
				typename A::P p = *root;
				for (int c : prog[t]) {
					if (c < 4) w.settle(p);
					else if (c < 8) {
						int o0 = (int)w.hist.ops.size();
						(void)o0;
						waiter<T>(w, p, coin(3));
					} else if (c < 14) w.reg(p);
					else if (c < 17) w.read(p, (int)rnd(2));
					else if (c < 19) w.read(p, 2);
					else if (c == 30) vrt_yield();
					else if (c == 19) {
						typename A::P q, fresh;
						if (coin()) q.try_reject(std::make_exception_ptr(err{-77777}));
						q = p;
						if (coin()) p = fresh;
						else if (coin()) p = typename A::P(q);
						else {
							auto& self = p;
							p = self;
						}
						p = q;
						w.query(q);
					} else if (blocking && t != 0 && c < 22) w.read(p, 3 + (int)rnd(2));
					else w.query(p);
				}
			});
			w.settle(*root);
			int fin = w.read(*root, 4);
			vrt_ignore ig;
			CHECK(live_co() == 0, "%d coroutine(s) stay suspended on a settled promise", live_co());
			int ncb = 0;
			for (auto& c : w.cbs) {
				bool want = c.kind == 0 || (fin > 0 && (c.kind & 1)) || (fin < 0 && (c.kind & 2));
				CHECK(c.ran == (want ? 1 : 0), "callback of kind %d ran %d times, promise is %s", c.kind, c.ran, fin > 0 ? "fulfilled" : "rejected");
				if (want) {
					CHECK(c.got == fin, "callback saw %d instead of %d", c.got, fin);
					ncb++;
				}
			}
			for (size_t i = 0; i < w.hist.ops.size(); i++)
				if (!w.hist.ops[i].done) w.hist.end((int)i, 0);
			model m;
			m.v = A::norm(made);
			int r = linearizable(w.hist.ops, m, 60000);
			if (r == 0) {
				w.hist.dump(names);
				vrt_fail("oracle", "observations are not explained by one settlement");
			}
			vrt_count(r < 0 ? "inconclusive_histories" : "histories_checked", 1);
			vrt_count("callbacks_run", ncb);
			vrt_count("operations", w.hist.ops.size());
			w.hist.signature();
			if (w.hist.overlapped()) vrt_nontrivial();
			w.hist.dump(names);
			vrt_ignore_end();
			root.reset();
			vrt_ignore_begin();
		}
		check_quiescent();
	}
	void mixed() { coin(3) ? run<void>(false) : run<msg>(false); }
	void blocking() { coin(3) ? run<void>(true) : run<msg>(true); }
	// duel: settlers race, every other thread observes one kind
	void duel() {
		reset_globals();
		{
			asyncpp::promise<msg> p;
			mon<int> wins, winner, seen, cb;
			int nt = 2 + (int)rnd(2);
			int obs = (int)rnd(5);
			parallel(nt + 1, [&](int t) {
				asyncpp::promise<msg> q = p;
				if (t < nt) {
					int v = t % 2 && coin() ? -(t + 1) : t + 1;
					bool r = v > 0 ? pa<msg>::fulfil(q, v, coin()) : reject(q, v, coin());
					if (r) {
						wins.add(1);
						winner.set(v);
					}
				} else
					switch (obs) {
					case 0: seen.set(pa<msg>::get(q)); break;
					case 1: seen.set(pa<msg>::tget(q, std::chrono::hours(10))); break;
					case 2: pa<msg>::then(q, [&](int v) { seen.set(v); CHECK(cb.add(1) == 0, "callback twice"); }, true, true); break;
					case 3:
						[](asyncpp::promise<msg> q, mon<int>& seen) -> co {
							try {
								seen.set((co_await q).take());
							} catch (const err& e) { seen.set(e.v); }
						}(q, seen);
						break;
					default: q.on_settle([&seen, q]() { seen.set(pa<msg>::try_get_nt(q)); });
					}
			});
			CHECK(wins.get() == 1, "%d settlers succeeded", wins.get());
			CHECK(pa<msg>::get(p) == winner.get(), "the stored outcome is not the winner's");
			if (obs != 1 || seen.get() != 0 || !vrt_timefuzz()) CHECK(seen.get() == winner.get(), "observer saw %d, winner is %d", seen.get(), winner.get());
			vrt_sig(winner.get() * 16 + obs);
			vrt_nontrivial();
		}
		check_quiescent();
	}

	// ---- C11
	struct arg {
		asyncpp::promise<int> pi;
		int outcome = 0; // >0 fulfilled, <0 rejected
		moment call, ret;
	};
	template<class F>
	void combine(std::vector<arg>& a, F f) {
		switch (a.size()) {
		case 1: f(a[0].pi); break;
		case 2: f(a[0].pi, a[1].pi); break;
		case 3: f(a[0].pi, a[1].pi, a[2].pi); break;
		default: f(a[0].pi, a[1].pi, a[2].pi, a[3].pi); break;
		}
	}
	void settle_arg(arg& a, int outcome) {
		{
			vrt_ignore i;
			a.call = moment::now();
			a.outcome = outcome;
		}
		asyncpp::promise<int> p = a.pi;
		if (outcome > 0) p.fulfill(outcome);
		else p.reject(std::make_exception_ptr(err{outcome}));
		{
			vrt_ignore i;
			a.ret = moment::now();
		}
	}
	int get_int(asyncpp::promise<int>& p) {
		try {
			auto* r = p.try_get();
			return r ? *r : 0;
		} catch (const err& e) { return e.v; }
	}
	void combinators(int which) {
		if (which == 2 && coin(50)) { // nothing to wait for
			auto p = asyncpp::promise_all();
			CHECK(p.is_fulfilled(), "promise_all without arguments is not fulfilled");
			int calls = 0;
			p.on_settle([&]() { calls++; });
			CHECK(calls == 1, "callback of a fulfilled promise called %d times", calls);
			vrt_count("no_arguments", 1);
		}
		{
			int n = 1 + (int)rnd(4);
			std::vector<arg> args(n);
			std::vector<int> plan(n), owner(n);
			int mode = (int)rnd(3);
			for (int i = 0; i < n; i++) {
				plan[i] = mode == 0 ? -(i + 1) : mode == 1 ? (coin() ? i + 1 : -(i + 1)) : (coin(4) ? i + 1 : -(i + 1));
				owner[i] = 1 + (int)rnd(3);
				if (coin(6)) owner[i] = 0; // settled before combining
			}
			std::vector<int> order(n);
			for (int i = 0; i < n; i++) order[i] = i;
			for (int i = n - 1; i > 0; i--) std::swap(order[i], order[rnd(i + 1)]);
			bool late = coin(4);	// combine concurrently with the settling threads
			mon<int> settled_cb, settled_at_cb;
			std::optional<asyncpp::promise<int>> ri;
			std::optional<asyncpp::promise<void>> rv;
			auto pending_or_done = [&](bool& can, bool& must) {
				// from real-time order: which conditions may/must hold now
				int nf = 0, nall = 0, mf = 0, mall = 0;
				for (auto& a : args) {
					if (a.call.set) nall++, nf += a.outcome > 0;
					if (a.ret.set && before(a.ret, moment::now())) mall++, mf += a.outcome > 0;
				}
				if (which == 0) can = nall > 0, must = mall > 0;
				else if (which == 1) can = nf > 0 || nall == n, must = mf > 0 || mall == n;
				else can = nall == n, must = mall == n;
			};
			mon<bool> attached(false);
			auto probe = [&](bool ret) {
				if (!ri && !rv) return;
				bool can, must, can2, must2;
				{
					vrt_ignore i;
					pending_or_done(can, must);
				}
				bool done = rv ? !rv->is_pending() : !ri->is_pending();
				{
					vrt_ignore i;
					pending_or_done(can2, must2);
				}
				if (done) CHECK(can2, "combined promise settled although its condition is not met");
				if (!done && ret && attached.get()) CHECK(!must, "combined promise still pending although its condition is met");
			};
			auto attach = [&]() {
				if (which == 0) combine(args, [&](auto... p) { ri.emplace(asyncpp::promise_first<int>(p...)); });
				else if (which == 1) combine(args, [&](auto... p) { ri.emplace(asyncpp::promise_first_successful<int>(p...)); });
				else combine(args, [&](auto... p) { rv.emplace(asyncpp::promise_all(p...)); });
				auto once = [&]() {
					CHECK(settled_cb.add(1) == 0, "combined promise settled twice");
				};
				if (rv) rv->on_settle(once);
				else ri->on_settle(once);
				attached.set(true);
			};
			for (int i : order)
				if (owner[i] == 0) settle_arg(args[i], plan[i]);
			if (!late) {
				attach();
				probe(true);
			}
			bool seq = coin(3);
			parallel(seq ? 1 : 4, [&](int t) {
				if (late && t == 0) attach();
				for (int i : order)
					if (owner[i] != 0 && (seq || owner[i] == t)) {
						settle_arg(args[i], plan[i]);
						if (!late) probe(true);
					}
				if (t == 0 && !late) probe(true);
			});
			probe(true);
			vrt_ignore ig;
			CHECK(settled_cb.get() == 1, "combined promise not settled after all arguments settled");
			int nf = 0;
			for (int x : plan) nf += x > 0;
			if (which == 2) {
				CHECK(rv->is_fulfilled(), "promise_all is not fulfilled");
			} else {
				int v = get_int(*ri);
				int idx = std::abs(v) - 1;
				CHECK(idx >= 0 && idx < n && plan[idx] == v, "outcome %d was produced by no argument", v);
				// before attaching, arguments are visited in argument order, so what matters is what happened since
				auto first_ok = [&](auto pred) {
					for (int j = 0; j < n; j++)
						if (j != idx && pred(j) && before(args[j].ret, args[idx].call)) return false;
					return true;
				};
				bool presettled = late;
				for (int j = 0; j < n; j++) presettled |= owner[j] == 0;
				if (which == 0) {
					// if some arguments were settled before combining, one of them is the outcome
					if (!late && presettled) CHECK(owner[idx] == 0, "promise_first took argument %d although another was settled already", idx);
					if (!presettled) CHECK(first_ok([](int) { return true; }), "promise_first took argument %d, another one had settled before it", idx);
				} else {
					if (nf > 0) CHECK(v > 0, "promise_first_successful rejected although %d argument(s) were fulfilled", nf);
					else {
						CHECK(v < 0, "promise_first_successful fulfilled out of nothing");
						if (!presettled)
							for (int j = 0; j < n; j++)
								if (j != idx) CHECK(!before(args[idx].ret, args[j].call), "rejected with argument %d although %d failed later", idx, j);
					}
					if (v > 0 && !presettled) CHECK(first_ok([&](int j) { return plan[j] > 0; }), "promise_first_successful took a later success");
				}
				vrt_sig(v + 100);
			}
			for (int i = 0; i < n; i++) vrt_sig(plan[i] * 8 + owner[i]);
			for (int i : order) vrt_sig(i);
			vrt_count("arguments", n);
			vrt_count("fulfilled_arguments", nf);
			if (n > 1) vrt_nontrivial();
		}
	}
	void first() { combinators(0); }
	void first_successful() { combinators(1); }
	void all() { combinators(2); }
	// ways to put values in and get them out
	void values() {
		reset_globals();
		{
			using P = asyncpp::promise<tracked>;
			int v = 1 + (int)rnd(100);
			tracked src(v);
			const tracked csrc(v);
			bool ok = true, thr = coin();
			P p;
			P other = p;
			int how = (int)rnd(7);
			auto put = [&](auto&& x) {
				if (!thr) ok = p.try_fulfill(std::forward<decltype(x)>(x));
				else p.fulfill(std::forward<decltype(x)>(x));
			};
			tracked *seen = nullptr, *awaited = nullptr;
			const tracked* cbseen = nullptr;
			bool early = coin(), moved = false;
			auto observe = [&]() {
				[](P q, tracked*& out) -> co {
					tracked& r = co_await q;
					out = &r;
				}(p, awaited);
				p.then([&](const tracked& t) { cbseen = &t; }, [&](const std::exception_ptr&) { vrt_fail("oracle", "fulfilled promise calls the rejection callback"); });
			};
			if (how == 5) {
				P q = P::make_fulfilled(tracked(v));
				p = other = q;
			}
			if (early && how != 5) observe();
			switch (how) {
			case 0: put(src); break;
			case 1: put(csrc); break;
			case 2: put(std::move(src)); moved = true; break;
			case 3: put(tracked(v)); break;
			case 4: put(v); break; // converted
			case 5: break;
			case 6: {
				const tracked& r = src;
				put(r);
			}
			}
			if (!early || how == 5) observe();
			CHECK(ok, "try_fulfill of a pending promise failed");
			if (!moved) CHECK(src.get() == v, "a value passed as lvalue was moved from");
			CHECK(csrc.get() == v, "source damaged");
			seen = &other.get();
			CHECK(seen->get() == v, "wrong value");
			CHECK(p.try_get() == seen && p.try_get(std::nothrow).first == seen && p.get(std::chrono::seconds(1)) == seen, "several values in one promise");
			CHECK(awaited == seen, "co_await yields another object than get()");
			CHECK(cbseen == seen, "callbacks get another object than get()");
			CHECK(!p.try_fulfill(src) && !p.try_reject<err>(4) && p.get().get() == v, "settled promise changed");
			CHECK(src.magic == tracked::OK || moved, "a refused value passed as lvalue was moved from");
			// rejection keeps the very exception object
			P e;
			auto ex = std::make_exception_ptr(err{-v});
			auto keep = ex;
			if (coin()) e.reject(ex);
			else if (coin()) e = P::make_rejected(ex);
			else CHECK(e.try_reject(ex), "try_reject of a pending promise failed");
			CHECK(ex == keep, "exception passed as lvalue was taken");
			CHECK(e.try_get(std::nothrow).second == keep && e.try_get(std::nothrow).first == nullptr, "another exception");
			std::exception_ptr got;
			e.then([](const tracked&) { vrt_fail("oracle", "rejected promise calls the fulfilment callback"); }, [&](const std::exception_ptr& x) { got = x; });
			CHECK(got == keep, "callback got another exception");
			int m = -1;
			try {
				(void)e.get(std::chrono::seconds(1));
			} catch (const err& x) { m = x.v; }
			CHECK(m == -v, "timed get() threw something else");
			vrt_sig(how * 4 + thr * 2 + early);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// arguments of different types, more of them, and the same one twice
	struct res {
		int v;
		res(int x) : v(x) {}
		res(long x) : v((int)x) {}
		res(const tracked& t) : v(t.get()) {}
	};
	void types(int which) {
		reset_globals();
		{
			const int N = 5;
			asyncpp::promise<int> a;
			asyncpp::promise<long> b;
			asyncpp::promise<tracked> c;
			asyncpp::promise<int> d;
			asyncpp::promise<void> v;
			asyncpp::promise<res> f;
			int n = which == 2 ? 6 : N;
			int plan[6], order[6];
			int mode = (int)rnd(3);
			for (int i = 0; i < n; i++) {
				plan[i] = mode == 0 ? -(i + 1) : mode == 1 ? (coin() ? i + 1 : -(i + 1)) : (coin(5) ? i + 1 : -(i + 1));
				order[i] = i;
			}
			for (int i = n - 1; i > 0; i--) std::swap(order[i], order[rnd(i + 1)]);
			auto put = [](auto p, int x) {
				using R = typename decltype(p)::result_type;
				if (x < 0) {
					p.template reject<err>(x);
					return;
				}
				if constexpr (std::is_void_v<R>) p.fulfill();
				else p.fulfill(R(x));
			};
			auto settle = [&](int i) {
				switch (i) {
				case 0: put(a, plan[0]); break;
				case 1: put(b, plan[1]); break;
				case 2: put(c, plan[2]); break;
				case 3: put(d, plan[3]); break;
				case 4: put(f, plan[4]); break;
				default: put(v, plan[5]); break;
				}
			};
			std::optional<asyncpp::promise<res>> r;
			std::optional<asyncpp::promise<void>> rv;
			int pre = coin(3) ? (int)rnd(n + 1) : 0;
			for (int i = 0; i < pre; i++) settle(order[i]);
			bool twice = coin(3);
			if (which == 0) twice ? r.emplace(asyncpp::promise_first<res>(a, b, a, c, d, f, f)) : r.emplace(asyncpp::promise_first<res>(a, b, c, d, f));
			else if (which == 1) twice ? r.emplace(asyncpp::promise_first_successful<res>(a, b, a, c, d, f, f)) : r.emplace(asyncpp::promise_first_successful<res>(a, b, c, d, f));
			else twice ? rv.emplace(asyncpp::promise_all(v, a, b, a, c, d, f, v)) : rv.emplace(asyncpp::promise_all(v, a, b, c, d, f));
			bool par = coin();
			auto check = [&](int settled) {
				bool done = rv ? !rv->is_pending() : !r->is_pending();
				int nf = 0;
				for (int i = 0; i < settled; i++) nf += plan[order[i]] > 0;
				bool want = which == 0 ? settled > 0 : which == 1 ? nf > 0 || settled == n : settled == n;
				CHECK(done == want, "%d of %d arguments settled (%d fulfilled), but the combined promise is %s", settled, n, nf, done ? "settled" : "pending");
				if (!done) return;
				if (rv) {
					CHECK(rv->is_fulfilled(), "promise_all is not fulfilled");
					return;
				}
				int got = 0, exp = 0;
				try {
					got = r->get().v;
				} catch (const err& e) { got = e.v; }
				if (pre > 0 && settled >= pre) { // several may have been settled on entry
					bool among = false;
					for (int i = 0; i < settled; i++) among |= plan[order[i]] == got;
					CHECK(among, "outcome %d was produced by no argument", got);
					if (which == 1) CHECK((got > 0) == (nf > 0), "%d argument(s) fulfilled, outcome is %d", nf, got);
					return;
				}
				if (par) {
					if (which == 1) CHECK((got > 0) == (nf > 0), "%d argument(s) fulfilled, outcome is %d", nf, got);
					bool among = false;
					for (int i = 0; i < n; i++) among |= plan[i] == got;
					CHECK(among, "outcome %d was produced by no argument", got);
					return;
				}
				if (which == 0) exp = plan[order[0]];
				else {
					for (int i = settled - 1; i >= 0; i--)
						if (plan[order[i]] > 0) exp = plan[order[i]];
					if (!nf) exp = plan[order[n - 1]];
				}
				CHECK(got == exp, "outcome is %d, should be %d", got, exp);
			};
			if (par) {
				parallel(2, [&](int t) {
					for (int i = pre; i < n; i++)
						if ((i & 1) == t) settle(order[i]);
				});
			} else {
				for (int i = pre; i < n; i++) {
					check(i);
					settle(order[i]);
				}
			}
			check(n);
			for (int i = 0; i < n; i++) vrt_sig(plan[i] * 8 + order[i]);
			vrt_count("arguments", n);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// a value that can not be constructed does not settle the promise
	struct fragile {
		int v;
		bool bad;
		explicit fragile(int v, bool bad = false) : v(v), bad(bad) {}
		fragile(const fragile& o) : v(o.v), bad(false) {
			if (o.bad) throw err{v};
			vrt_yield();
		}
		fragile(int v, int) : fragile(v, false) { throw err{v}; }
	};
	struct from_bad {
		int v;
		operator fragile() const { return fragile(v, 0); }
	};
	void failing() {
		reset_globals();
		{
			using P = asyncpp::promise<fragile>;
			P p;
			mon<int> awaited, called, settled, blocked, thrown, won;
			int nb = 1 + (int)rnd(2), ng = (int)rnd(2), what = coin(3) ? -7 : 7;
			auto watch = [&]() {
				[](P q, mon<int>& out) -> co {
					int x;
					try {
						x = (co_await q).v;
					} catch (const err& e) { x = e.v; }
					CHECK(out.get() == 0, "awaiting coroutine resumed twice");
					out.set(x);
				}(p, awaited);
				p.then([&](const fragile& f) { called.add(f.v); }, [&](const std::exception_ptr& e) { called.add(code(e)); });
				p.on_settle([&]() { settled.add(1); });
			};
			bool early = coin(4);
			if (early) watch();
			bool lone = ng == 0;
			parallel(nb + ng + 1, [&](int t) {
				if (t < nb) {
					bool res = false, threw = false;
					int k = (int)vrt_rand(3);
					try {
						fragile f(100 + t, true);
						if (k == 0) res = p.try_fulfill(f);
						else if (k == 1) res = p.try_fulfill(from_bad{100 + t});
						else {
							p.fulfill(std::move(f));
							res = true;
						}
					} catch (const err& e) {
						CHECK(e.v == 100 + t, "somebody else's exception");
						threw = true;
						thrown.add(1);
					} catch (const std::logic_error&) {}
					CHECK(!res, "fulfilled with a value that can not be constructed");
					if (lone) {
						CHECK(threw, "exception of the value's constructor is lost, or the promise calls itself settled");
						CHECK(p.is_pending() && !p.is_fulfilled() && !p.is_rejected(), "promise not pending although no value could be stored");
						CHECK(p.try_get() == nullptr, "promise has a value although none could be stored");
						CHECK(p.get(std::chrono::nanoseconds(0)) == nullptr, "promise has a value although none could be stored");
					}
				} else if (t < nb + ng) {
					if (what > 0 ? p.try_fulfill(fragile(what)) : p.try_reject<err>(what)) won.add(1);
				} else {
					int x = 0;
					if (!lone) {
						try {
							x = p.get().v;
						} catch (const err& e) { x = e.v; }
						blocked.set(x);
					}
				}
			});
			if (!early) watch();
			if (lone) {
				CHECK(awaited.get() == 0 && called.get() == 0 && settled.get() == 0, "observers of a pending promise run");
				CHECK(what > 0 ? p.try_fulfill(fragile(what)) : p.try_reject<err>(what), "promise that never got a value can not be settled");
			} else CHECK(won.get() == 1 && blocked.get() == what, "get() yields %d, promise settled with %d", blocked.get(), what);
			CHECK(awaited.get() == what, "coroutine got %d, promise settled with %d", awaited.get(), what);
			CHECK(called.get() == what, "callback got %d, promise settled with %d", called.get(), what);
			CHECK(settled.get() == 1, "on_settle callback ran %d times", settled.get());
			vrt_count("thrown", thrown.get());
			vrt_sig(nb * 8 + ng * 4 + early * 2 + (what > 0));
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ the last handle dies inside the settlement
	void last_handle() {
		reset_globals();
		{
			using P = asyncpp::promise<tracked>;
			struct holder {
				P p;
			};
			auto* o = new holder;
			bool good = coin(), in_frame = coin(3), before = coin(3);
			int n = (int)rnd(3), m = (int)rnd(3), killer = in_frame ? -1 : (int)rnd(n + m + 1), threads = 1 + (int)rnd(2);
			mon<int> called, settled, awaited;
			P* where = &o->p;
			if (in_frame) { // a coroutine waits for its own promise
				delete std::exchange(o, nullptr);
				[](P*& out, mon<int>& got) -> co {
					P mine;
					out = &mine;
					int x;
					try {
						x = (co_await mine).get();
					} catch (const err& e) { x = e.v; }
					got.add(x);
				}(where, awaited);
			}
			auto die = [&](int k) {
				if (k == killer) delete std::exchange(o, nullptr);
			};
			auto watch = [&](P& p) {
				// the lambdas below outlive their own promise, so they copy what they need first
				for (int k = 0; k < n; k++)
					p.on_settle([&die, &settled, k]() {
						auto& s = settled;
						die(k);
						s.add(1);
					});
				for (int k = 0; k < m; k++)
					p.then(
						[&die, &called, j = n + k](const tracked& v) {
							auto& c = called;
							die(j);
							c.add(v.get());
						},
						[&die, &called, j = n + k](const std::exception_ptr& e) {
							auto& c = called;
							die(j);
							c.add(code(e));
						});
			};
			if (!before) watch(*where);
			auto settle = [&](P& p) { return good ? p.try_fulfill(tracked(7)) : p.try_reject<err>(7); };
			if (threads == 1) CHECK(settle(*where), "pending promise can not be settled");
			else
				parallel(2, [&](int t) {
					if (t == 0) CHECK(settle(*where), "pending promise can not be settled");
					else vrt_sleep_ns(100);
				});
			if (before && o) {
				// everybody registers on a settled promise: run at once
				for (int k = 0; k < m + n; k++) {
					bool last = k == killer;
					if (!o) break;
					if (k < n)
						o->p.on_settle([&, k]() {
							auto& s = settled;
							die(k);
							s.add(1);
						});
					else
						o->p.then(
							[&, k](const tracked& v) {
								auto& c = called;
								die(k);
								c.add(v.get());
							},
							[&, k](const std::exception_ptr& e) {
								auto& c = called;
								die(k);
								c.add(code(e));
							});
					if (last) {
						n = std::min(n, k + 1), m = k < n ? 0 : k + 1 - n;
						break;
					}
				}
			}
			if (!before || o || killer >= 0) {
				if (!(in_frame && before)) {
					CHECK(settled.get() == n, "%d of %d on_settle callbacks ran", settled.get(), n);
					CHECK(called.get() == 7 * m, "callbacks got %d in total, expected %d", called.get(), 7 * m);
				}
			}
			if (in_frame) CHECK(awaited.get() == 7, "coroutine got %d", awaited.get());
			delete o;
			vrt_sig(n * 100 + m * 10 + good * 4 + in_frame * 2 + before + (killer + 1) * 1000);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ callbacks whose destructor uses the promise
	void destructors() {
		reset_globals();
		{
			using P = asyncpp::promise<tracked>;
			int n = 1 + (int)rnd(5), regs = 1 + (int)rnd(2), setters = 1 + (int)rnd(2);
			mon<int> destroyed, called, awaited, won;
			{
				P p;
				struct guard { // e.g. rejects when its callback is dropped
					P p;
					mon<int>& destroyed;
					~guard() {
						CHECK(!p.is_pending(), "callback destroyed although the promise is pending");
						CHECK(!p.try_reject<err>(99), "settled twice");
						destroyed.add(1);
					}
				};
				auto reg = [&](P q) {
					auto g = std::make_shared<guard>(q, destroyed);
					switch (rnd(3)) {
					case 0: q.on_settle([g = std::move(g), &called]() { called.add(1); }); break;
					case 1: q.then([g = std::move(g), &called](const tracked&) { called.add(1); }, {}); break;
					default: q.then({}, [g = std::move(g), &called](const std::exception_ptr&) { called.add(1); });
					}
				};
				for (int k = n / 2; k < n; k++) reg(p);
				[](P q, mon<int>& out) -> co {
					try {
						(void)co_await q;
					} catch (const err&) {}
					out.add(1);
				}(p, awaited);
				parallel(regs + setters, [&, q = p](int t) mutable {
					if (t < setters) {
						if (coin() ? q.try_fulfill(tracked(7)) : q.try_reject<err>(7)) won.add(1);
					} else {
						vrt_yield();
						for (int k = t - setters; k < n / 2; k += regs) reg(q);
					}
				});
				CHECK(won.get() == 1, "settled %d times", won.get());
			}
			CHECK(awaited.get() == 1, "awaiting coroutine resumed %d times", awaited.get());
			CHECK(destroyed.get() == n, "%d of %d callbacks are destroyed", destroyed.get(), n);
			vrt_count("callbacks", n);
			vrt_sig(n * 100 + called.get());
			vrt_nontrivial();
		}
		check_quiescent();
	}
	void first_types() { types(0); }
	void successful_types() { types(1); }
	void all_types() { types(2); }
} // namespace
SCENARIOS({"mixed", mixed, 0}, {"blocking", blocking, 0}, {"duel", duel, VRT_NOLEAP}, {"first", first, 0}, {"first_successful", first_successful, 0}, {"all", all, 0},
		  {"values", values, 0}, {"failing", failing, 0}, {"last_handle", last_handle, 0}, {"destructors", destructors, 0}, {"first_types", first_types, 0}, {"successful_types", successful_types, 0}, {"all_types", all_types, 0})
