// C01: async mutex
#include "hd.h"
#include <asyncpp/mutex.h>
#include <optional>
using namespace h;
namespace {
	enum { REG, GRANT, UNLOCK, TRY, ISL };
	const char* const names[] = {"lock", "granted", "unlock", "try_lock", "is_locked"};
	struct model {
		bool locked = false;
		std::vector<int> q;
		u64 granted = 0; // granted, not yet observed
		bool apply(const op& o) {
			switch (o.kind) {
			case REG:
				if (!locked) locked = true, granted |= 1ull << o.a;
				else q.push_back((int)o.a);
				return true;
			case GRANT:
				if (!((granted >> o.a) & 1)) return false;
				granted &= ~(1ull << o.a);
				return true;
			case UNLOCK:
				if (!locked) return false;
				if (q.empty()) locked = false;
				else {
					granted |= 1ull << q.front();
					q.erase(q.begin());
				}
				return true;
			case TRY:
				if (o.r != (locked ? 0 : 1)) return false;
				locked = true;
				return true;
			case ISL: return o.r == (locked ? 1 : 0);
			}
			return false;
		}
		u64 key() const {
			u64 k = hmix(locked, granted);
			for (int x : q) k = hmix(k, x + 1);
			return k;
		}
	};
	struct world {
		asyncpp::mutex mtx;
		history hist;
		data guarded[2];
		mon<int> owners, grants;
		int next_id = 0;
		pump* p = nullptr;
		explicit world(bool locked) : mtx(), hist() {
			if (locked) {
				CHECK(mtx.try_lock(), "try_lock failed on a fresh mutex");
				owners.add(1);
			}
		}
		int id() {
			vrt_ignore i;
			return next_id++;
		}
		void enter() {
			CHECK(owners.add(1) == 0, "two owners inside the mutex");
			guarded[0].write(guarded[0].read() + 1);
			if (coin(3)) vrt_yield();
			guarded[1].write(guarded[1].read() + 1);
			CHECK(guarded[0].read() == guarded[1].read(), "guarded data torn");
		}
		void leave() {
			guarded[0].write(guarded[0].read() + 1);
			guarded[1].write(guarded[1].read() + 1);
			owners.add(-1);
		}
		void unlock() {
			leave();
			int o = hist.begin(UNLOCK);
			mtx.unlock();
			hist.end(o);
		}
	};
	struct regs {
		int o = -1;
		bool suspended_returned = false;
	};
	// close the registration op: either the coroutine was granted or control came back
	void close(history& hist, int o) {
		vrt_ignore i;
		if (!hist.ops[o].done) hist.end(o, 0);
	}
	void granted(world& w, int id, int reg) {
		vrt_ignore i;
		close(w.hist, reg);
		int g = w.hist.begin(GRANT, id);
		w.hist.end(g);
		w.grants.add(1);
	}
	co locker(world& w, int id, int* reg, int variant) {
		*reg = w.hist.begin(REG, id);
		int r = *reg;
		switch (variant) {
		case 0: {
			co_await w.mtx.lock();
			granted(w, id, r);
			w.enter();
			if (w.p && coin(3)) co_await hop{w.p};
			w.unlock();
			break;
		}
		case 1: {
			asyncpp::mutex_lock lk = co_await w.mtx.lock_scoped();
			granted(w, id, r);
			CHECK(lk.is_locked(), "lock_scoped() result not locked");
			w.enter();
			if (w.p && coin(3)) co_await hop{w.p};
			w.leave();
			int o = w.hist.begin(UNLOCK);
			lk.unlock();
			w.hist.end(o);
			CHECK(!lk.is_locked(), "mutex_lock still locked after unlock()");
			break;
		}
		case 2: {
			int o = -1;
			{
				asyncpp::mutex_lock lk(w.mtx);
				CHECK(!lk.is_locked(), "deferred mutex_lock is locked");
				co_await lk.lock();
				granted(w, id, r);
				CHECK(lk.is_locked(), "mutex_lock not locked after lock()");
				w.enter();
				asyncpp::mutex_lock lk2(std::move(lk));
				CHECK(!lk.is_locked() && lk2.is_locked(), "move construction did not transfer ownership");
				w.leave();
				o = w.hist.begin(UNLOCK);
			}
			w.hist.end(o);
			break;
		}
		case 3: { // two critical sections in a row using the same mutex_lock, move assignment
			asyncpp::mutex_lock lk = co_await w.mtx.lock_scoped();
			granted(w, id, r);
			w.enter();
			asyncpp::mutex_lock other(w.mtx);
			other = std::move(lk);
			CHECK(!lk.is_locked() && other.is_locked(), "move assignment did not transfer ownership");
			w.leave();
			int o = w.hist.begin(UNLOCK);
			other = asyncpp::mutex_lock(w.mtx); // releases
			w.hist.end(o);
			CHECK(!other.is_locked(), "assigned-to lock claims ownership");
			int id2 = w.id();
			int r2 = w.hist.begin(REG, id2);
			co_await other.lock();
			granted(w, id2, r2);
			CHECK(other.is_locked(), "not locked after second lock()");
			w.enter();
			w.leave();
			o = w.hist.begin(UNLOCK);
			other.unlock();
			w.hist.end(o);
			break;
		}
		}
	}
	void try_section(world& w, bool raii) {
		int o = w.hist.begin(TRY);
		std::optional<asyncpp::mutex_lock> lk;
		bool ok;
		if (raii) {
			lk.emplace(w.mtx);
			ok = lk->try_lock();
			CHECK(lk->is_locked() == ok, "is_locked() differs from try_lock() result");
		} else
			ok = w.mtx.try_lock();
		w.hist.end(o, ok);
		if (ok) {
			vrt_count("try_lock_ok", 1);
			w.enter();
			if (raii) {
				w.leave();
				int u = w.hist.begin(UNLOCK);
				lk.reset();
				w.hist.end(u);
			} else
				w.unlock();
		} else
			vrt_count("try_lock_busy", 1);
	}
	void run(bool initially_locked, int nthreads, int nops, bool with_pump) {
		reset_globals();
		world w(initially_locked);
		std::optional<pump> p;
		if (with_pump) {
			p.emplace(1);
			w.p = &*p;
		}
		std::vector<std::vector<int>> prog(nthreads);
		for (auto& t : prog)
			for (int k = 0; k < nops; k++) {
				int c = (int)rnd(10);
				t.push_back(c);
			}
		parallel(nthreads, [&](int t) {
			for (int c : prog[t]) {
				if (c < 7) {
					int id = w.id();
					int reg;
					locker(w, id, &reg, c == 6 ? 3 : c % 3);
					close(w.hist, reg);
				} else if (c < 9)
					try_section(w, c == 8);
				else {
					int o = w.hist.begin(ISL);
					bool l = w.mtx.is_locked();
					w.hist.end(o, l);
				}
			}
			if (t == 0 && initially_locked) {
				w.owners.set(1);
				w.unlock();
			}
		});
		p.reset();
		vrt_ignore ig;
		if (live_co() != 0) {
			w.hist.dump(names);
			vrt_fail("oracle", "%d lock request(s) never granted although the mutex was released", live_co());
		}
		CHECK(!w.mtx.is_locked(), "mutex locked after every owner released it");
		model m;
		m.locked = initially_locked;
		int r = linearizable(w.hist.ops, m);
		if (r == 0) {
			w.hist.dump(names);
			vrt_fail("oracle", "history is not explained by a FIFO mutex");
		}
		vrt_count(r < 0 ? "inconclusive_histories" : "histories_checked", 1);
		vrt_count("lock_grants", w.grants.get());
		vrt_count("operations", w.hist.ops.size());
		w.hist.signature();
		if (w.hist.overlapped()) vrt_nontrivial();
		w.hist.dump(names);
	}
	void mixed() { run(coin(3), 2 + (int)rnd(2), 1 + (int)rnd(4), false); }
	void hops() { run(coin(3), 2 + (int)rnd(2), 1 + (int)rnd(3), true); }
	// many waiters queued at known order while the mutex is held: strict FIFO
	co fifo_waiter(world& w, int idx, std::vector<int>& order) {
		co_await w.mtx.lock();
		{
			vrt_ignore i;
			order.push_back(idx);
		}
		w.enter();
		w.unlock();
	}
	void fifo() {
		reset_globals();
		world w(true);
		std::vector<int> order;
		int n = 2 + (int)rnd(5), k = 0;
		std::mutex m;
		// one thread queues waiters, one by one in a known order, while another unlocks at some point
		parallel(2, [&](int t) {
			if (t == 0) {
				for (int i = 0; i < n; i++) fifo_waiter(w, i, order);
			} else {
				for (int i = (int)rnd(6); i > 0; i--) vrt_yield();
				w.owners.set(1);
				w.unlock();
			}
		});
		vrt_ignore ig;
		(void)k;
		check_quiescent();
		CHECK((int)order.size() == n, "only %zu of %d waiters were granted", order.size(), n);
		for (int i = 0; i < n; i++) CHECK(order[i] == i, "waiter %d overtook waiter %d", order[i], i);
		for (int x : order) vrt_sig(x);
		vrt_count("lock_grants", n);
		vrt_nontrivial();
	}
	// ownership seen by the next owner, resumed from inside mutex_lock::unlock()
	co obs_waiter(asyncpp::mutex& m, asyncpp::mutex_lock& first, int& seen) {
		co_await m.lock();
		seen = first.is_locked() ? 2 : 1;
		m.unlock();
	}
	void handoff_view() {
		reset_globals();
		asyncpp::mutex m;
		int seen = 0;
		{
			asyncpp::mutex_lock lk(m);
			CHECK(lk.try_lock(), "try_lock failed on a free mutex");
			obs_waiter(m, lk, seen);
			CHECK(seen == 0, "waiter ran while the mutex was held");
			switch (rnd(3)) {
			case 0: lk.unlock(); break;
			case 1: lk = asyncpp::mutex_lock(m); break;
			case 2: {
				asyncpp::mutex_lock l2(std::move(lk));
				break;
			}
			}
			CHECK(seen != 2, "a mutex_lock still claims ownership while the next owner holds the mutex");
			CHECK(seen == 1, "waiter not resumed by release");
			CHECK(!m.is_locked(), "mutex not released exactly once");
		}
		CHECK(!m.is_locked(), "mutex not free at the end");
		CHECK(m.try_lock(), "mutex unusable");
		m.unlock();
		check_quiescent();
		vrt_nontrivial();
		vrt_sig(rnd(3));
	}
	// several mutexes and mutex_locks that are moved between each other, against an exact model of who owns what
	struct lockset {
		static constexpr int M = 3, S = 4;
		asyncpp::mutex mtx[M];
		std::optional<asyncpp::mutex_lock> slot[S];
		// model
		enum { FREE = -1, RAW = -2 };
		int owner[M] = {FREE, FREE, FREE}; // slot, FREE or RAW (try_lock() or a waiter using lock())
		struct waiter {
			int id, slot; // slot < 0: raw
		};
		std::vector<waiter> q[M];
		int where[S] = {-1, -1, -1, -1}; // mutex a slot is bound to, -1: none
		bool held[S] = {}, busy[S] = {};
		std::vector<int> expect, got;
		int next = 0;
		void release(int m) {
			if (q[m].empty()) {
				owner[m] = FREE;
				return;
			}
			waiter w = q[m].front();
			q[m].erase(q[m].begin());
			expect.push_back(w.id);
			take(m, w);
		}
		void take(int m, waiter w) {
			owner[m] = w.slot < 0 ? RAW : w.slot;
			if (w.slot >= 0) {
				where[w.slot] = m;
				held[w.slot] = true;
				busy[w.slot] = false;
			}
		}
		co raw_waiter(int m, int id) {
			co_await mtx[m].lock();
			got.push_back(id);
		}
		co scoped_waiter(int m, int id, int s) {
			auto lk = co_await mtx[m].lock_scoped();
			CHECK(lk.is_locked() && &lk.mutex() == &mtx[m], "lock_scoped() gave a lock of another mutex");
			slot[s].emplace(std::move(lk));
			got.push_back(id);
		}
		co slot_waiter(int id, int s) {
			co_await slot[s]->lock();
			got.push_back(id);
		}
		void drop(int s) { // model of the destruction or replacement of a slot's lock
			if (held[s]) {
				held[s] = false;
				release(where[s]);
			}
			where[s] = -1;
		}
		void check(const char* what) {
			for (int m = 0; m < M; m++)
				CHECK(mtx[m].is_locked() == (owner[m] != FREE), "after %s: mutex %d is %s", what, m, owner[m] == FREE ? "locked although nobody owns it" : "not locked although it has an owner");
			for (int s = 0; s < S; s++)
				if (slot[s] && !busy[s]) {
					CHECK(slot[s]->is_locked() == held[s], "after %s: mutex_lock claims %s", what, held[s] ? "not to own its mutex" : "ownership");
					if (where[s] >= 0) CHECK(&slot[s]->mutex() == &mtx[where[s]], "after %s: mutex_lock refers to another mutex", what);
				}
			CHECK(got.size() == expect.size(), "after %s: %zu waiters were granted the mutex instead of %zu", what, got.size(), expect.size());
			for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == expect[i], "after %s: waiter %d overtook waiter %d", what, got[i], expect[i]);
		}
		void step() {
			int s = (int)rnd(S), t = (int)rnd(S), m = (int)rnd(M);
			switch (rnd(11)) {
			case 0: // deferred
				if (busy[s]) return;
				drop(s);
				slot[s].reset();
				slot[s].emplace(mtx[m]);
				where[s] = m;
				return check("mutex_lock(mutex)");
			case 1: // adopted
				if (busy[s] || owner[m] != FREE) return;
				CHECK(mtx[m].try_lock(), "try_lock failed on a free mutex");
				owner[m] = RAW;
				drop(s);
				slot[s].reset();
				slot[s].emplace(mtx[m], std::adopt_lock);
				owner[m] = s;
				where[s] = m;
				held[s] = true;
				return check("mutex_lock(mutex, adopt_lock)");
			case 2: {
				if (busy[s] || !slot[s] || where[s] < 0 || held[s]) return;
				bool ok = slot[s]->try_lock();
				CHECK(ok == (owner[where[s]] == FREE), "mutex_lock::try_lock() returned %d", ok);
				if (ok) owner[where[s]] = s, held[s] = true;
				return check("mutex_lock::try_lock()");
			}
			case 3:
				if (busy[s] || !held[s]) return;
				held[s] = false;
				release(where[s]);
				slot[s]->unlock();
				return check("mutex_lock::unlock()");
			case 4: { // move construction
				if (busy[s] || busy[t] || s == t || !slot[s]) return;
				drop(t);
				slot[t].reset();
				check("~mutex_lock()");
				if (busy[s] || !slot[s]) return;
				slot[t].emplace(std::move(*slot[s]));
				where[t] = where[s];
				held[t] = held[s];
				if (held[t]) owner[where[t]] = t;
				where[s] = -1;
				held[s] = false;
				return check("move construction");
			}
			case 5: { // move assignment, also to itself
				if (busy[s] || busy[t] || !slot[s] || !slot[t]) return;
				if (s != t) {
					int w = where[s];
					bool h = held[s];
					where[s] = -1;
					held[s] = false;
					int ow = where[t];
					bool oh = held[t];
					where[t] = w;
					held[t] = h;
					if (h) owner[w] = t;
					if (oh) release(ow);
				}
				*slot[t] = std::move(*slot[s]);
				return check(s == t ? "self assignment" : "move assignment");
			}
			case 6:
				if (busy[s]) return;
				drop(s);
				slot[s].reset();
				return check("~mutex_lock()");
			case 7: {
				if (owner[m] == RAW) {
					release(m);
					mtx[m].unlock();
					return check("mutex::unlock()");
				}
				bool ok = mtx[m].try_lock();
				CHECK(ok == (owner[m] == FREE), "mutex::try_lock() returned %d", ok);
				if (ok) owner[m] = RAW;
				return check("mutex::try_lock()");
			}
			case 8:
			case 9:
			case 10: {
				int kind = (int)rnd(3), id = next++;
				waiter w{id, -1};
				if (kind == 1) {
					if (busy[s]) return;
					drop(s);
					slot[s].reset();
					w.slot = s;
				} else if (kind == 2) {
					if (busy[s] || !slot[s] || where[s] < 0) return;
					if (held[s]) { // already owned: nothing to wait for
						expect.push_back(id);
						slot_waiter(id, s);
						return check("lock() of an owning mutex_lock");
					}
					w.slot = s;
					m = where[s];
				}
				if (w.slot >= 0) busy[s] = true;
				if (owner[m] == FREE) {
					expect.push_back(id);
					take(m, w);
				} else
					q[m].push_back(w);
				if (kind == 0) raw_waiter(m, id);
				else if (kind == 1) scoped_waiter(m, id, s);
				else slot_waiter(id, s);
				return check("lock()");
			}
			}
		}
	};
	void locks() {
		reset_globals();
		lockset* w;
		{
			w = new lockset;
			int n = 10 + (int)rnd(40);
			for (int i = 0; i < n; i++) w->step();
			// release everything
			for (bool again = true; again;) {
				again = false;
				for (int m = 0; m < w->M; m++)
					if (w->owner[m] == w->RAW) {
						w->release(m);
						w->mtx[m].unlock();
						w->check("mutex::unlock()");
						again = true;
					} else if (int s = w->owner[m]; s >= 0) {
						w->held[s] = false;
						w->release(m);
						w->slot[s]->unlock();
						w->check("mutex_lock::unlock()");
						again = true;
					}
			}
			for (int m = 0; m < w->M; m++) CHECK(w->q[m].empty(), "waiter left behind");
			vrt_count("lock_grants", w->got.size());
			for (int x : w->got) vrt_sig(x);
			if (w->got.size() > 2) vrt_nontrivial();
			vrt_sig(n);
			delete w;
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"locks", locks, VRT_SINGLE}, {"mixed", mixed, 0}, {"hops", hops, 0}, {"fifo", fifo, 0}, {"handoff_view", handoff_view, VRT_SINGLE})
