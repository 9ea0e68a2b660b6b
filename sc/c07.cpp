// C07/C08: bounded async queue, clear and move
#include "hd.h"
#include <asyncpp/queue.h>
#include <atomic>
#include <limits>
#include <optional>
using namespace h;
namespace {
	struct msg {
		tracked t;
		std::unique_ptr<data> payload;
		explicit msg(int v) : t(v), payload(std::make_unique<data>()) { payload->write(v * 10L); }
		msg(int a, int b) : msg(a + b) {}
		msg(msg&&) = default;
		msg& operator=(msg&&) = default;
		int take() const {
			int v = t.get();
			CHECK(payload && payload->read() == v * 10L, "value %d arrived without its payload", v);
			return v;
		}
	};
	using que = asyncpp::queue<msg>;
	const int NQ = 4; // queue slots of a history: 0,1 shared, 2.. private to a thread
	enum { GREG, GDONE, PREG, PDONE, TRYG, TRYP, SIZE, EMPTY, CLEAR, MOVE, NK };
	const char* const knames[] = {"pop", "pop_done", "push", "push_done", "try_pop", "try_push", "size", "empty", "clear", "move_from"};
	int K(int kind, int q) { return kind * NQ + q; }
	void dump(history& hist) {
		static char buf[NK * NQ][24];
		static const char* nm[NK * NQ];
		for (int i = 0; i < NK * NQ; i++) {
			snprintf(buf[i], sizeof buf[i], "q%d.%s", i % NQ, knames[i / NQ]);
			nm[i] = buf[i];
		}
		hist.dump(nm);
	}
	struct model {
		struct q {
			size_t cap = 1;
			std::vector<int> items;
			std::vector<std::pair<int, int>> pushers;
			std::vector<int> poppers;
		} qs[NQ];
		std::map<int, int> gres, pres;
		static void refill(q& x, std::map<int, int>& pres) {
			if (!x.pushers.empty() && x.items.size() < x.cap) {
				x.items.push_back(x.pushers.front().second);
				pres[x.pushers.front().first] = 1;
				x.pushers.erase(x.pushers.begin());
			}
		}
		void fail_all(q& x) {
			for (int r : x.poppers) gres[r] = -1;
			for (auto& w : x.pushers) pres[w.first] = 0;
			x.poppers.clear();
			x.pushers.clear();
		}
		static int direct(q& x, std::map<int, int>& pres) { // capacity zero: straight from a suspended push
			int v = x.pushers.front().second;
			pres[x.pushers.front().first] = 1;
			x.pushers.erase(x.pushers.begin());
			return v;
		}
		bool apply(const op& o) {
			q& x = qs[o.kind % NQ];
			int id = (int)o.a;
			switch (o.kind / NQ) {
			case GREG:
				if (x.items.empty() && !x.pushers.empty()) gres[id] = direct(x, pres);
				else if (!x.items.empty()) {
					gres[id] = x.items.front();
					x.items.erase(x.items.begin());
					refill(x, pres);
				} else
					x.poppers.push_back(id);
				return true;
			case GDONE: {
				auto it = gres.find(id);
				if (it == gres.end() || it->second != o.r) return false;
				gres.erase(it);
				return true;
			}
			case PREG:
				if (!x.poppers.empty()) {
					gres[x.poppers.front()] = (int)o.b;
					x.poppers.erase(x.poppers.begin());
					pres[id] = 1;
				} else if (x.items.size() < x.cap) {
					x.items.push_back((int)o.b);
					pres[id] = 1;
				} else
					x.pushers.emplace_back(id, (int)o.b);
				return true;
			case PDONE: {
				auto it = pres.find(id);
				if (it == pres.end() || it->second != o.r) return false;
				pres.erase(it);
				return true;
			}
			case TRYG:
				if (x.items.empty() && !x.pushers.empty()) return o.r == direct(x, pres);
				if (x.items.empty()) return o.r == -1;
				if (o.r != x.items.front()) return false;
				x.items.erase(x.items.begin());
				refill(x, pres);
				return true;
			case TRYP:
				if (x.items.size() >= x.cap && x.poppers.empty()) return o.r == 0;
				if (o.r != 1) return false;
				if (!x.poppers.empty()) {
					gres[x.poppers.front()] = (int)o.b;
					x.poppers.erase(x.poppers.begin());
				} else
					x.items.push_back((int)o.b);
				return true;
			case SIZE: return (size_t)o.r == x.items.size() + x.pushers.size();
			case EMPTY: return o.r == (x.items.empty() && x.pushers.empty() ? 1 : 0);
			case CLEAR:
				x.items.clear();
				for (auto& w : x.pushers) pres[w.first] = 0;
				x.pushers.clear();
				return true;
			case MOVE: { // x = move(src)
				q& s = qs[o.a];
				fail_all(x);
				x = s;
				s.items.clear();
				s.pushers.clear();
				s.poppers.clear();
				return true;
			}
			}
			return false;
		}
		u64 key() const {
			u64 k = 1;
			for (auto& x : qs) {
				k = hmix(k, x.cap);
				for (int r : x.items) k = hmix(k, 100 + r);
				k = hmix(k, 77);
				for (int r : x.poppers) k = hmix(k, 1000 + r);
				for (auto& w : x.pushers) k = hmix(k, 2000 + w.first);
			}
			for (auto& x : gres) k = hmix(k, hmix(x.first, x.second + 5));
			for (auto& x : pres) k = hmix(k, hmix(x.first, x.second + 9000));
			return k;
		}
	};
	struct world {
		std::optional<que> qs[NQ];
		size_t cap[NQ] = {};
		history hist;
		mon<int> nid, popped, nval, failed;
		pump* p = nullptr;
		void close_reg(int o) {
			vrt_ignore i;
			if (!hist.ops[o].done) hist.end(o, 0);
		}
		asyncpp::dispatcher* pickd() { return p && coin() ? p : nullptr; }
		void done(int reg, int kind, int id, long r) {
			vrt_ignore i;
			close_reg(reg);
			int d = hist.begin(kind, id);
			hist.end(d, r);
		}
		void try_pop(int q) {
			int o = hist.begin(K(TRYG, q));
			auto v = qs[q]->try_pop();
			int r = v ? v->take() : -1;
			if (v) popped.add(1);
			hist.end(o, r);
		}
		bool try_push(int q) {
			int v = 1 + nval.add(1);
			int o = hist.begin(K(TRYP, q), 0, v);
			bool r;
			switch (rnd(3)) {
			case 0: r = qs[q]->try_push(msg(v)); break;
			case 1: r = qs[q]->try_emplace(v); break;
			default: r = qs[q]->try_emplace(v - 1, 1); break;
			}
			hist.end(o, r);
			return r;
		}
		void clear(int q) {
			int o = hist.begin(K(CLEAR, q));
			qs[q]->clear();
			hist.end(o);
		}
		size_t size(int q) {
			int o = hist.begin(K(SIZE, q));
			size_t n = qs[q]->size();
			hist.end(o, (long)n);
			return n;
		}
		bool empty(int q) {
			int o = hist.begin(K(EMPTY, q));
			bool n = qs[q]->empty();
			hist.end(o, n);
			return n;
		}
		void move(int dst, int src) {
			int o = hist.begin(K(MOVE, dst), src);
			*qs[dst] = std::move(*qs[src]);
			hist.end(o);
		}
		void move_new(int dst, int src) {
			int o = hist.begin(K(MOVE, dst), src);
			qs[dst].emplace(std::move(*qs[src]));
			hist.end(o);
		}
	};
	co popper(world& w, int q, int n, int* reg, int after) {
		for (int k = 0; k < n; k++) {
			int id = w.nid.add(1);
			int o = w.hist.begin(K(GREG, q), id);
			if (k == 0) *reg = o;
			std::optional<msg> v;
			if (w.p && coin(3)) v = co_await w.qs[q]->pop().resume_on(w.pickd());
			else v = co_await w.qs[q]->pop();
			int r = v ? v->take() : -1;
			if (v) w.popped.add(1);
			else w.failed.add(1);
			w.done(o, K(GDONE, q), id, r);
			// a released waiter may use the queue at once, also when it failed
			if (after == 1) w.try_pop(q);
			else if (after == 2) (void)w.try_push(q);
			else if (after == 3) (void)w.size(q);
			if (r == -1) break; // the queue was assigned over
		}
	}
	co pusher(world& w, int q, int n, int* reg, int after) {
		for (int k = 0; k < n; k++) {
			int id = w.nid.add(1);
			int v = 1 + w.nval.add(1);
			int o = w.hist.begin(K(PREG, q), id, v);
			if (k == 0) *reg = o;
			bool r;
			if (w.p && coin(3)) r = co_await w.qs[q]->push(msg(v)).resume_on(w.pickd());
			else r = co_await w.qs[q]->push(msg(v));
			if (!r) w.failed.add(1);
			w.done(o, K(PDONE, q), id, r);
			if (after == 1) w.try_pop(q);
			else if (after == 2) (void)w.try_push(q);
			else if (after == 3) (void)w.empty(q);
			if (!r) break;
		}
	}
	void spawn(world& w, int q, bool pop, bool allow_after) {
		int reg;
		int n = coin(4) ? 2 : 1;
		int a = allow_after && coin(3) ? (int)rnd(4) : 0;
		if (pop) popper(w, q, n, &reg, a);
		else pusher(w, q, n, &reg, a);
		w.close_reg(reg);
	}
	void judge(world& w, model& init, bool interesting) {
		vrt_ignore ig;
		for (size_t i = 0; i < w.hist.ops.size(); i++)
			if (!w.hist.ops[i].done) w.hist.end((int)i, 0);
		int r = linearizable(w.hist.ops, init, 60000);
		if (r == 0) {
			dump(w.hist);
			vrt_fail("oracle", "history is not explained by a bounded FIFO queue");
		}
		vrt_count(r < 0 ? "inconclusive_histories" : "histories_checked", 1);
		vrt_count("popped", w.popped.get());
		vrt_count("failed_waits", w.failed.get());
		vrt_count("operations", w.hist.ops.size());
		w.hist.signature();
		if (interesting) vrt_nontrivial();
		dump(w.hist);
	}
	void run(bool with_pump, bool clears, bool moves) {
		reset_globals();
		{
			world w;
			std::optional<pump> p;
			if (with_pump) {
				p.emplace(1);
				w.p = &*p;
			}
			model init;
			int nq = moves ? 2 : 1;
			size_t cap = coin(5) ? std::numeric_limits<size_t>::max() : coin(5) ? 0 : 1 + rnd(3);
			for (int i = 0; i < nq; i++) {
				w.cap[i] = init.qs[i].cap = cap;
				w.qs[i].emplace(cap, w.p && coin() ? w.p : nullptr);
			}
			int nt = moves && coin(4) ? 1 : 2 + (int)rnd(3);
			std::vector<std::vector<int>> prog(nt);
			for (auto& t : prog)
				for (int k = 1 + (int)rnd(nt == 1 ? 12 : nt > 3 ? 3 : 4); k > 0; k--) t.push_back((int)rnd(clears ? 21 : 20));
			if (moves)
				for (int k = 1 + (int)rnd(2); k > 0; k--) {
					auto& v = prog[rnd(nt)];
					v.insert(v.begin() + rnd(v.size() + 1), 90 + (int)rnd(2));
				}
			mon<int> priv(2);
			int bias = (int)rnd(3); // 0 balanced, 1 more pushes, 2 more pops
			parallel(nt, [&](int t) {
				for (int c : prog[t]) {
					int q = nq == 2 ? (int)rnd(2) : 0;
					if (c == 90) {
						if (coin()) w.move(q, 1 - q);
						else {
							que fresh(cap, nullptr);
							// moving an empty queue in: everything suspended on q is released as failed
							int s = priv.add(1);
							if (s < NQ) {
								w.qs[s].emplace(std::move(fresh));
								w.move(q, s);
							}
						}
					} else if (c == 91) {
						int s = priv.add(1);
						if (s < NQ) {
							w.move_new(s, q);
							for (int k = (int)rnd(4); k > 0; k--) switch (rnd(4)) {
								case 0: w.try_pop(s); break;
								case 1: spawn(w, s, true, false); break;
								case 2: spawn(w, s, false, false); break;
								default: (void)w.size(s);
								}
							if (coin()) w.move(q, s);
						}
					} else if (c < 14) {
						bool pop = (c < 7);
						if (bias == 1 && coin(3)) pop = false;
						if (bias == 2 && coin(3)) pop = true;
						spawn(w, q, pop, true);
					} else if (c < 16) w.try_pop(q);
					else if (c < 18) (void)w.try_push(q);
					else if (c == 18) (void)w.size(q);
					else if (c == 19) (void)w.empty(q);
					else w.clear(q);
				}
			});
			int used = moves ? std::min(priv.get(), NQ) : 1;
			// release whatever is still suspended; private queues first
			for (int q = used - 1; q >= 0; q--) {
				if (!w.qs[q]) continue;
				if (moves && coin()) {
					que fresh(cap, nullptr);
					int s = -1;
					for (int i = NQ - 1; i >= used; i--) s = i;
					if (s >= 0 && !w.qs[s]) {
						w.qs[s].emplace(std::move(fresh));
						w.move(q, s);
						w.qs[s].reset();
						used++;
					}
				}
			}
			if (p) p->stop();
			for (int round = 0; round < 40 && live_co(); round++)
				for (int q = 0; q < NQ; q++) {
					if (!w.qs[q]) continue;
					if (w.size(q)) w.try_pop(q);
					else (void)w.try_push(q);
				}
			{
				vrt_ignore ig;
				if (live_co()) {
					dump(w.hist);
					vrt_fail("oracle", "%d operation(s) stay suspended although items were offered and taken", live_co());
				}
			}
			for (auto& q : init.qs) q.cap = cap;
			judge(w, init, moves ? w.failed.get() || w.popped.get() : w.hist.overlapped() && w.popped.get());
			for (auto& q : w.qs) q.reset();
		}
		check_quiescent();
	}
	void mixed() { run(false, false, false); }
	void mixed_pump() { run(true, false, false); }
	void clearing() { run(coin(3), true, false); }
	void moving() { run(coin(3), coin(), true); }

	// streaming over a bounded queue with several producers and consumers
	co produce(que& q, int base, int n, mon<int>& ok) {
		for (int i = 0; i < n; i++) {
			bool r = co_await q.push(msg(base + i));
			CHECK(r, "push yielded false");
			ok.add(1);
		}
	}
	co consume(que& q, std::vector<int>& got, int n, mon<int>& max, size_t cap, int producers) {
		for (int i = 0; i < n; i++) {
			auto v = co_await q.pop();
			CHECK(v.has_value(), "pop yielded nothing");
			int x = v->take();
			size_t s = q.size();
			CHECK(s <= cap + producers, "size() %zu exceeds the capacity %zu plus %d suspended pushes", s, cap, producers);
			vrt_ignore ig;
			got.push_back(x);
			if ((int)s > max.get()) max.set((int)s);
		}
	}
	void stream() {
		reset_globals();
		{
			int np = 1 + (int)rnd(3), nc = 1 + (int)rnd(2), n = 2 * (1 + (int)rnd(4));
			size_t cap = rnd(4);
			que q(cap, nullptr);
			mon<int> ok, mx;
			std::vector<int> got[2];
			parallel(np + nc, [&](int t) {
				if (t < np) produce(q, 100 * (t + 1), n, ok);
				else consume(q, got[t - np], np * n / nc, mx, cap, np);
			});
			vrt_ignore ig;
			CHECK(live_co() == 0, "%d producers/consumers stuck", live_co());
			CHECK(ok.get() == np * n, "%d of %d pushes succeeded", ok.get(), np * n);
			CHECK(q.empty() && q.size() == 0, "queue not empty");
			std::set<int> all;
			for (int c = 0; c < nc; c++) {
				std::map<int, int> last;
				for (int x : got[c]) {
					CHECK(all.insert(x).second, "value %d popped twice", x);
					CHECK(last[x / 100] < x, "values of one producer popped out of order");
					last[x / 100] = x;
				}
			}
			CHECK((int)all.size() == np * n, "%zu of %d values delivered", all.size(), np * n);
			for (int c = 0; c < nc; c++)
				for (int x : got[c]) vrt_sig(x * 2 + c);
			vrt_count("popped", np * n);
			vrt_count("max_size_seen", 0);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// values: try_emplace builds the same object whether or not a pop is suspended; clear with reentrancy
	co pop_str(asyncpp::queue<std::string>& q, std::string* out) {
		auto v = co_await q.pop();
		CHECK(v.has_value(), "pop yielded nothing");
		*out = *v;
	}
	void values() {
		asyncpp::queue<std::string> q;
		std::string direct, queued;
		unsigned n = 1 + (unsigned)rnd(60);
		pop_str(q, &direct);
		CHECK(q.try_emplace(n, 'x'), "try_emplace failed");
		CHECK(q.try_emplace(n, 'x'), "try_emplace failed");
		pop_str(q, &queued);
		CHECK(queued == std::string(n, 'x'), "stored value differs from the one emplaced");
		CHECK(direct == queued, "try_emplace hands a suspended pop a different value than it stores");
		vrt_sig(n);
		vrt_nontrivial();
	}
	// sequential move scripts with different capacities: the target takes over the source's capacity
	co push_one(que& q, int v, std::vector<int>& log) {
		bool r = co_await q.push(msg(v));
		vrt_ignore ig;
		log.push_back(r ? v : -v);
	}
	co pop_one(que& q, std::vector<int>& log) {
		auto v = co_await q.pop();
		int x = v ? v->take() : 0;
		vrt_ignore ig;
		log.push_back(1000 + x);
	}
	void capacity() {
		reset_globals();
		{
			std::vector<int> log;
			size_t c1 = rnd(5), c2 = rnd(5);
			std::optional<que> a, b;
			a.emplace(c1, nullptr);
			int n = (int)(c1 + rnd(4));
			for (int i = 1; i <= n; i++) push_one(*a, i, log);
			int waiting = n > (int)c1 ? n - (int)c1 : 0;
			CHECK(live_co() == waiting, "%d suspended pushes with capacity %zu and %d pushed", live_co(), c1, n);
			bool assign = coin();
			int pend_pop = 0, pend_push = 0;
			if (assign) {
				b.emplace(c2, nullptr);
				if (coin()) {
					pend_pop = (int)rnd(3);
					for (int i = 0; i < pend_pop; i++) pop_one(*b, log);
				} else {
					int m = (int)(c2 + rnd(3));
					pend_push = m - (int)c2;
					for (int i = 0; i < m; i++) push_one(*b, 500 + i, log);
				}
				{
					vrt_ignore ig;
					log.clear();
				}
				*b = std::move(*a);
				CHECK((int)log.size() == pend_pop + pend_push, "%zu of %d operations suspended on the target were released", log.size(), pend_pop + pend_push);
				vrt_ignore ig;
				for (int x : log) CHECK(pend_pop ? x == 1000 : x <= -500, "operation on the assigned-to queue succeeded");
			} else
				b.emplace(std::move(*a));
			if (coin()) a.reset(); // the source may go away
			CHECK((int)b->size() == n, "size %zu after moving %d entries", b->size(), n);
			vrt_ignore ig;
			for (int i = 1; i <= n; i++) {
				auto v = b->try_pop();
				CHECK(v && v->take() == i, "wrong value after the move");
				CHECK((int)b->size() == n - i, "wrong size after the move");
				int left = std::max(0, waiting - i);
				CHECK(live_co() == left, "%d instead of %d pushes still suspended", live_co(), left);
			}
			CHECK(b->empty(), "not empty");
			// capacity came along
			size_t k = 0;
			while (k < 10 && b->try_push(msg((int)k))) k++;
			CHECK(k == c1, "capacity %zu after moving a queue of capacity %zu", k, c1);
			if (a) {
				CHECK(a->empty(), "moved-from queue still has items");
			}
			vrt_sig(n * 100 + c1 * 10 + c2 + assign * 1000 + pend_pop * 10000 + pend_push * 100000);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// Values whose construction can fail: an operation that throws leaves the queue and everybody waiting on it as they were.
	struct err {
		int v;
	};
	int g_fuse = 0; // the n-th copy from now throws
	struct brittle {
		int v;
		explicit brittle(int v) : v(v) {}
		brittle(int v, const char*) : v(v) { throw err{v}; }
		brittle(const brittle& o) : v(o.v) {
			if (g_fuse > 0 && --g_fuse == 0) throw err{v};
		}
		brittle& operator=(const brittle& o) {
			if (g_fuse > 0 && --g_fuse == 0) throw err{o.v};
			v = o.v;
			return *this;
		}
	};
	using bque = asyncpp::queue<brittle>;
	co brittle_pop(bque& q, manual& man, int id, std::vector<int>& log) {
		auto v = co_await q.pop().resume_on(&man);
		vrt_ignore ig;
		log.push_back(id);
		log.push_back(v ? v->v : -1);
	}
	co brittle_push(bque& q, int v, int fuse, bool& threw, std::vector<int>& log) {
		brittle b(v);
		bool r = false;
		try {
			auto aw = q.push(std::move(b));
			g_fuse = fuse;
			r = co_await aw;
			g_fuse = 0;
		} catch (const err&) {
			g_fuse = 0;
			threw = true;
			co_return;
		}
		vrt_ignore ig;
		log.push_back(r ? v : -v);
	}
	void failing() {
		reset_globals();
		{
			g_fuse = 0;
			size_t cap = rnd(4);
			bque q(cap);
			manual man;
			std::deque<int> stored, poppers;
			std::deque<int> pushers;
			std::vector<int> plog, pexp, wlog, wexp;
			int next = 1, threws = 0, direct = 0;
			auto accept = [&](int v) { // a push took effect
				if (!poppers.empty()) {
					pexp.push_back(poppers.front());
					pexp.push_back(v);
					poppers.pop_front();
				} else stored.push_back(v);
			};
			auto refill = [&]() {
				if (pushers.empty() || stored.size() >= cap) return;
				stored.push_back(pushers.front());
				wexp.push_back(pushers.front());
				pushers.pop_front();
			};
			int n = 10 + (int)rnd(30);
			for (int i = 0; i < n; i++) {
				int k = (int)rnd(6), v = next++, fuse = coin() ? 1 + (int)rnd(4) : 0;
				bool threw = false, res = false, waiting = !poppers.empty();
				vrt_sig(k * 8 + fuse);
				switch (k) {
				case 0: {
					brittle b(v);
					g_fuse = fuse;
					try {
						res = q.try_push(std::move(b));
					} catch (const err&) { threw = true; }
					g_fuse = 0;
					CHECK(b.v == v, "source of a push by copy changed");
					if (!threw) {
						CHECK(res == (waiting || stored.size() < cap), "try_push returned %d with %zu of %zu stored", res, stored.size(), cap);
						if (res) accept(v);
					}
					break;
				}
				case 1:
					g_fuse = fuse;
					try {
						if (coin()) res = q.try_emplace(v, "boom");
						else res = q.try_emplace(v);
					} catch (const err&) { threw = true; }
					g_fuse = 0;
					if (!threw) {
						CHECK(res == (waiting || stored.size() < cap), "try_emplace returned %d with %zu of %zu stored", res, stored.size(), cap);
						if (res) accept(v);
					}
					break;
				case 2:
					brittle_push(q, v, fuse, threw, wlog);
					g_fuse = 0;
					if (!threw) {
						if (waiting || stored.size() < cap) {
							accept(v);
							wexp.push_back(v);
						} else pushers.push_back(v);
					}
					break;
				case 3: {
					auto r = q.try_pop();
					bool direct = stored.empty() && !pushers.empty();
					CHECK(r.has_value() == (direct || !stored.empty()), "try_pop of a queue with %zu items and %zu suspended pushes %s", stored.size(), pushers.size(), r ? "yields one" : "fails");
					if (direct) {
						CHECK(r->v == pushers.front(), "popped %d, first suspended push is %d", r->v, pushers.front());
						wexp.push_back(pushers.front());
						pushers.pop_front();
					} else if (r) {
						CHECK(r->v == stored.front(), "popped %d, front is %d", r->v, stored.front());
						stored.pop_front();
						refill();
					}
					break;
				}
				default:
					brittle_pop(q, man, v, plog);
					if (stored.empty() && !pushers.empty()) {
						pexp.push_back(v);
						pexp.push_back(pushers.front());
						wexp.push_back(pushers.front());
						pushers.pop_front();
					} else if (stored.empty()) poppers.push_back(v);
					else {
						pexp.push_back(v);
						pexp.push_back(stored.front());
						stored.pop_front();
						refill();
					}
					break;
				}
				if (threw) {
					threws++;
					if (waiting) direct++;
				}
				man.run_all();
				CHECK(q.size() == stored.size() + pushers.size(), "size() is %zu with %zu items and %zu suspended pushes", q.size(), stored.size(), pushers.size());
				CHECK(plog == pexp, "suspended pops: %zu results, expected %zu (last operation %s)", plog.size() / 2, pexp.size() / 2, threw ? "threw" : "did not throw");
				CHECK(wlog == wexp, "pushes completed: %zu, expected %zu (last operation %s)", wlog.size(), wexp.size(), threw ? "threw" : "did not throw");
			}
			// nobody is left behind
			while (!poppers.empty()) {
				int v = next++;
				CHECK(q.try_emplace(v), "try_emplace failed although somebody waits");
				accept(v);
				man.run_all();
				CHECK(plog == pexp, "a suspended pop is not served after another operation threw");
			}
			q.clear();
			for (int v : pushers) wexp.push_back(-v);
			CHECK(wlog == wexp, "clear() did not release every suspended push");
			vrt_count("threw", threws);
			vrt_count("threw_with_waiter", direct);
			if (threws) vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ values whose destructor uses the queue
	struct nosy;
	using nque = asyncpp::queue<nosy>;
	nque* g_nq[2];
	std::vector<int>* g_dead;
	int g_pushes;
	struct nosy {
		int v;
		explicit nosy(int x) : v(x) {}
		nosy(nosy&& o) noexcept : v(std::exchange(o.v, 0)) {}
		nosy& operator=(nosy&& o) noexcept {
			v = std::exchange(o.v, 0);
			return *this;
		}
		~nosy() {
			if (v == 0) return;
			{
				vrt_ignore i;
				g_dead->push_back(v);
			}
			for (auto q : g_nq)
				if (q) {
					CHECK(q->empty() == (q->size() == 0), "empty() and size() contradict each other");
					if (g_pushes > 0) {
						g_pushes--;
						(void)q->try_emplace(1000 + g_pushes);
					}
				}
		}
	};
	co push_nosy(nque& q, int v, std::vector<int>& failed) {
		if (!co_await q.push(nosy(v))) {
			vrt_ignore i;
			failed.push_back(v);
		}
	}
	co pop_nosy(nque& q, int& none) {
		auto v = co_await q.pop();
		if (!v) none++;
	}
	void destructors() {
		reset_globals();
		{
			std::vector<int> dead, failed;
			int none = 0;
			g_dead = &dead;
			size_t cap = rnd(4), cap2 = rnd(4);
			int n = (int)rnd(6), m = (int)rnd(6), pops = coin() ? (int)rnd(3) : 0, next = 1;
			{
				nque a(cap, nullptr), b(cap2, nullptr);
				if (m == 0)
					for (int i = 0; i < pops; i++) pop_nosy(b, none);
				for (int i = 0; i < n; i++) push_nosy(a, next++, failed);
				for (int i = 0; i < m; i++) push_nosy(b, next++, failed);
				CHECK(a.size() == (size_t)n && b.size() == (size_t)m, "size() is %zu and %zu, pushed %d and %d", a.size(), b.size(), n, m);
				g_nq[0] = &a;
				g_nq[1] = &b;
				g_pushes = (int)rnd(3);
				int extra = g_pushes;
				size_t stored = std::min<size_t>(m, cap2);
				switch (rnd(4)) {
				case 0: { // moving a queue to itself changes nothing
					auto& self = b;
					b = std::move(self);
					CHECK(b.size() == (size_t)m && dead.empty() && failed.empty() && none == 0, "queue changed when it was moved to itself");
					break;
				}
				case 1: b.clear(); break;
				default: b = std::move(a);
				}
				if (!dead.empty() || !failed.empty()) {
					CHECK(dead.size() >= stored, "only %zu of %zu values of a queue that was cleared or assigned over are destroyed", dead.size(), stored);
					for (size_t i = 0; i < stored; i++) CHECK(std::count(dead.begin(), dead.end(), n + 1 + (int)i) == 1, "stored value %d is not destroyed once", n + 1 + (int)i);
					CHECK(failed.size() == m - stored, "%zu suspended pushes failed, expected %zu", failed.size(), m - stored);
				}
				vrt_count("pushed_by_destructors", extra - g_pushes);
				g_pushes = 0;
				g_nq[0] = g_nq[1] = nullptr;
				a.clear();
				b.clear();
				// release poppers
				a = nque(1, nullptr);
				b = nque(1, nullptr);
				CHECK(live_co() == 0, "%d coroutine(s) stay suspended", live_co());
			}
			vrt_sig(n * 1000 + m * 100 + cap * 10 + cap2);
			vrt_ignore ig;
			std::vector<int>().swap(dead);
			std::vector<int>().swap(failed);
		}
		vrt_nontrivial();
		check_quiescent();
	}
	// ------------------------------------------------------------------ a moved queue resumes on the dispatcher it was given
	struct told {
		asyncpp::dispatcher* expect = nullptr;
		bool suspended = false, done = false;
		int val = -1;
	};
	co told_pop(que& q, told& t) {
		auto v = co_await q.pop();
		CHECK(asyncpp::dispatcher::current() == (t.suspended ? t.expect : nullptr), "pop resumed on %s dispatcher", asyncpp::dispatcher::current() ? "the wrong" : "no");
		CHECK(!t.done, "resumed twice");
		t.val = v ? v->take() : 0;
		t.done = true;
	}
	co told_push(que& q, int x, told& t) {
		bool r = co_await q.push(msg(x));
		CHECK(asyncpp::dispatcher::current() == (t.suspended ? t.expect : nullptr), "push resumed on %s dispatcher", asyncpp::dispatcher::current() ? "the wrong" : "no");
		CHECK(!t.done, "resumed twice");
		t.val = r;
		t.done = true;
	}
	void dispatchers() {
		reset_globals();
		{
			manual m[2] = {manual(1), manual(2)};
			asyncpp::dispatcher* d[2] = {coin(4) ? nullptr : &m[0], coin(4) ? nullptr : &m[1]};
			size_t cap[2] = {(size_t)rnd(3), (size_t)rnd(3)};
			std::optional<que> q[3];
			std::vector<std::unique_ptr<told>> pops[2], pushes[2];
			auto op = [&](que& qq, int i, bool pop, int x) {
				auto t = std::make_unique<told>();
				t->expect = d[i];
				t->suspended = true;
				told* tp = t.get();
				int before = live_co();
				bool will = pop ? qq.empty() : qq.size() >= cap[i];
				t->suspended = will;
				(pop ? pops : pushes)[i].push_back(std::move(t));
				pop ? told_pop(qq, *tp) : told_push(qq, x, *tp);
				CHECK((live_co() > before) == will, "%s %s", pop ? "pop" : "push", will ? "did not suspend" : "suspended");
			};
			auto run_all = [&]() { while (m[0].run_all() + m[1].run_all()) {} };
			int mode[2], n[2];
			for (int i = 0; i < 2; i++) {
				q[i].emplace(cap[i], d[i]);
				mode[i] = (int)rnd(2);
				n[i] = (int)rnd(4);
				for (int k = 0; k < n[i]; k++) op(*q[i], i, mode[i], 100 * (i + 1) + k);
			}
			bool assign = coin();
			que* to;
			if (assign) {
				*q[1] = std::move(*q[0]);
				run_all();
				for (auto& t : pops[1]) CHECK(t->done && t->val == 0, "pop on the assigned-to queue was not failed");
				for (auto& t : pushes[1]) CHECK(t->done && t->val == (t->suspended ? 0 : 1), "push on the assigned-to queue was not failed");
				to = &*q[1];
			} else {
				q[2].emplace(std::move(*q[0]));
				to = &*q[2];
			}
			if (coin()) q[0].reset();
			for (int k = (int)rnd(3); k > 0; k--) op(*to, 0, mode[0], 100 + n[0]++);
			// serve everybody who waits
			for (int k = 0; k < n[0]; k++) {
				if (mode[0]) CHECK(to->try_push(msg(500 + k)), "try_push failed although a pop waits");
				else {
					auto v = to->try_pop();
					CHECK(v && v->take() == 100 + k, "wrong value after the move");
				}
				run_all();
			}
			for (int k = 0; k < n[0]; k++) {
				told& t = *(mode[0] ? pops : pushes)[0][k];
				CHECK(t.done && t.val == (mode[0] ? 500 + k : 1), "operation %d suspended on a moved queue was not served in order", k);
			}
			CHECK(to->empty(), "not empty");
			if (!assign) q[1]->clear();
			for (int k = 0; !assign && mode[1] && k < n[1]; k++) CHECK(q[1]->try_push(msg(900 + k)), "try_push failed although a pop waits");
			run_all();
			CHECK(live_co() == 0, "%d coroutine(s) stay suspended", live_co());
			vrt_sig(((((u64)n[0] * 8 + n[1]) * 4 + cap[0]) * 4 + cap[1]) * 64 + mode[0] * 32 + mode[1] * 16 + assign * 8 + (d[0] != nullptr) * 2 + (d[1] != nullptr));
		}
		vrt_nontrivial();
		check_quiescent();
	}
} // namespace
SCENARIOS({"mixed", mixed, 0}, {"mixed_pump", mixed_pump, 0}, {"stream", stream, 0}, {"values", values, VRT_SINGLE}, {"clearing", clearing, 0}, {"moving", moving, 0}, {"capacity", capacity, VRT_SINGLE}, {"destructors", destructors, VRT_SINGLE}, {"dispatchers", dispatchers, VRT_SINGLE}, {"failing", failing, VRT_SINGLE})
