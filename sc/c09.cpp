// C09: threadsafe_queue is a linearizable FIFO
#include "h.h"
#include <asyncpp/threadsafe_queue.h>
#include <deque>
#include <list>
#include <optional>
using namespace h;
namespace {
	struct msg {
		tracked t;
		std::shared_ptr<data> payload;
		explicit msg(int v) : t(v), payload(std::make_shared<data>()) { payload->write(v * 10L); }
		msg(int a, int b) : msg(a + b) {}
		int take() const {
			int v = t.get();
			CHECK(payload && payload->read() == v * 10L, "value %d arrived without its payload", v);
			return v;
		}
	};
	const int NQ = 4;
	enum { POP, PUSH, COPY, MOVE, SWAPSELF, NK };
	const char* const knames[] = {"pop", "push", "copy_from", "move_from", "self_assign"};
	int K(int kind, int q) { return kind * NQ + q; }
	void dump(history& hist) {
		static char buf[NK * NQ][24];
		static const char* nm[NK * NQ];
		for (int i = 0; i < NK * NQ; i++) {
			snprintf(buf[i], sizeof buf[i], "q%d.%s", i % NQ, knames[i / NQ]);
			nm[i] = buf[i];
		}
		hist.dump(nm);
	}
	struct model {
		std::vector<int> q[NQ];
		bool apply(const op& o) {
			auto& x = q[o.kind % NQ];
			switch (o.kind / NQ) {
			case POP:
				if (x.empty()) return o.r == -1;
				if (o.r != x.front()) return false;
				x.erase(x.begin());
				return true;
			case PUSH: x.push_back((int)o.a); return true;
			case COPY: x = q[o.a]; return true;
			case MOVE:
				x = q[o.a];
				q[o.a].clear();
				return true;
			case SWAPSELF: return true;
			}
			return false;
		}
		u64 key() const {
			u64 k = 1;
			for (auto& x : q) {
				for (int r : x) k = hmix(k, 100 + r);
				k = hmix(k, 77);
			}
			return k;
		}
	};
	template<class Q>
	struct world {
		std::optional<Q> qs[NQ];
		history hist;
		mon<int> nval, popped;
		void pop(int q) {
			int o = hist.begin(K(POP, q));
			auto v = qs[q]->pop();
			int r = v ? v->take() : -1;
			if (v) popped.add(1);
			hist.end(o, r);
		}
		void push(int q) {
			int v = 1 + nval.add(1);
			int o = hist.begin(K(PUSH, q), v);
			switch (rnd(3)) {
			case 0: qs[q]->push(msg(v)); break;
			case 1: qs[q]->emplace(v); break;
			default: qs[q]->emplace(v - 2, 2); break;
			}
			hist.end(o);
		}
		void xfer(int dst, int src, bool mv) {
			int o = hist.begin(K(mv ? MOVE : COPY, dst), src);
			if (qs[dst]) {
				if (mv) *qs[dst] = std::move(*qs[src]);
				else if (coin()) *qs[dst] = std::as_const(*qs[src]);
				else *qs[dst] = *qs[src];
			} else {
				if (mv) qs[dst].emplace(std::move(*qs[src]));
				else if (coin()) qs[dst].emplace(std::as_const(*qs[src]));
				else qs[dst].emplace(*qs[src]);
			}
			hist.end(o);
		}
		void self(int q, bool mv) {
			int o = hist.begin(K(SWAPSELF, q));
			Q& a = *qs[q];
			Q& b = *qs[q];
			if (mv) a = std::move(b);
			else a = b;
			hist.end(o);
		}
	};
	template<class Q>
	void run(bool transfers) {
		reset_globals();
		{
			world<Q> w;
			w.qs[0].emplace();
			w.qs[1].emplace();
			int nt = 2 + (int)rnd(3);
			std::vector<std::vector<int>> prog(nt);
			for (auto& t : prog)
				for (int k = 2 + (int)rnd(nt > 3 ? 4 : 6); k > 0; k--) t.push_back((int)rnd(transfers ? 28 : 16));
			mon<int> priv(2);
			parallel(nt, [&](int t) {
				for (int c : prog[t]) {
					int q = transfers ? (int)rnd(2) : 0;
					if (c < 8) w.push(q);
					else if (c < 16) w.pop(q);
					else if (c < 20) w.xfer(q, 1 - q, false);
					else if (c < 23) w.xfer(q, 1 - q, true);
					else if (c == 23) w.self(q, coin());
					else {
						int s = priv.add(1);
						if (s < NQ) {
							w.xfer(s, q, coin());
							for (int k = (int)rnd(4); k > 0; k--) coin() ? w.pop(s) : w.push(s);
							if (coin()) w.xfer(q, s, coin());
						}
					}
				}
			});
			for (int q = 0; q < NQ; q++)
				if (w.qs[q])
					for (int k = 0; k < 6; k++) w.pop(q);
			vrt_ignore ig;
			int r = linearizable(w.hist.ops, model{}, 60000);
			if (r == 0) {
				dump(w.hist);
				vrt_fail("oracle", "history is not explained by a FIFO queue");
			}
			vrt_count(r < 0 ? "inconclusive_histories" : "histories_checked", 1);
			vrt_count("popped", w.popped.get());
			vrt_count("operations", w.hist.ops.size());
			w.hist.signature();
			if (w.hist.overlapped() && w.popped.get()) vrt_nontrivial();
			dump(w.hist);
		}
		check_quiescent();
	}
	using qd = asyncpp::threadsafe_queue<msg>;
	using ql = asyncpp::threadsafe_queue<msg, std::list<msg>>;
	void mixed() { coin(4) ? run<ql>(false) : run<qd>(false); }
	void transfer() { coin(4) ? run<ql>(true) : run<qd>(true); }
	// a = b concurrent with b = a must not deadlock, whatever else goes on
	void cross() {
		reset_globals();
		{
			qd a, b;
			for (int i = 0; i < 3; i++) {
				a.push(msg(i));
				b.push(msg(10 + i));
			}
			int mode = (int)rnd(4);
			parallel(2, [&](int t) {
				for (int k = 0; k < 3; k++) {
					qd& x = t ? a : b;
					qd& y = t ? b : a;
					if (mode & (1 << t)) x = std::move(y);
					else x = y;
				}
			});
			int na = 0, nb = 0;
			std::vector<int> va, vb;
			while (auto v = a.pop()) {
				int x = v->take();
				vrt_ignore ig;
				va.push_back(x);
				na++;
			}
			while (auto v = b.pop()) {
				int x = v->take();
				vrt_ignore ig;
				vb.push_back(x);
				nb++;
			}
			vrt_ignore ig;
			for (auto* v : {&va, &vb}) {
				CHECK(v->size() == 0 || v->size() == 3, "%zu elements after crosswise assignment", v->size());
				for (size_t i = 0; i < v->size(); i++) CHECK((*v)[i] == (*v)[0] + (int)i, "elements of two snapshots mixed");
			}
			if (mode == 0) CHECK(na == 3 && nb == 3, "copying lost elements");
			else if (mode == 3) CHECK(na + nb == 3 || na + nb == 0, "moving duplicated elements: %d %d", na, nb);
			vrt_sig(mode * 100 + na * 10 + nb);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ elements whose copy throws or whose destructor uses the queue
	struct nosy;
	using qn = asyncpp::threadsafe_queue<nosy>;
	qn* g_q[2];
	int g_alive, g_fuse, g_used;
	struct nosy {
		int v;
		explicit nosy(int x) : v(x) { g_alive++; }
		nosy(const nosy& o) : v(o.v) {
			if (g_fuse > 0 && --g_fuse == 0) throw v;
			g_alive++;
		}
		nosy(nosy&& o) noexcept : v(std::exchange(o.v, 0)) { g_alive++; }
		nosy& operator=(const nosy&) = default;
		nosy& operator=(nosy&& o) noexcept {
			v = std::exchange(o.v, 0);
			return *this;
		}
		~nosy() {
			g_alive--;
			if (v == 0) return;
			for (auto& q : g_q)
				if (q && g_used > 0) {
					g_used--;
					q->emplace(1000 + g_used);
				}
		}
	};
	void elements() {
		reset_globals();
		g_alive = g_fuse = g_used = 0;
		{
			qn a, b;
			int n = (int)rnd(5), m = (int)rnd(5);
			for (int i = 1; i <= n; i++) a.emplace(i);
			for (int i = 1; i <= m; i++) b.push(nosy(100 + i));
			bool use = coin(), copy = coin(), threw = false;
			int fuse = !use && copy && n > 0 && coin() ? 1 + (int)rnd(n) : 0;
			if (use) {
				g_q[0] = &a;
				g_q[1] = &b;
				g_used = 1 + (int)rnd(3);
			}
			int before = g_used;
			g_fuse = fuse;
			try {
				if (copy) b = a;
				else b = std::move(a);
			} catch (int) { threw = true; }
			g_fuse = 0;
			CHECK(threw == (fuse > 0), "copying %s", threw ? "threw" : "did not throw");
			g_q[0] = g_q[1] = nullptr;
			bool used = before != g_used;
			g_used = 0;
			CHECK(used == (use && m > 0), "the replaced elements were %s", used ? "destroyed" : "not destroyed");
			auto expect = [&](qn& q, int from, int cnt, const char* what) {
				for (int i = 0; i < cnt; i++) {
					auto v = q.pop();
					CHECK(v && v->v == from + i, "%s: element %d is %d, expected %d", what, i, v ? v->v : -1, from + i);
					v->v = 0;
				}
				while (auto v = q.pop()) {
					CHECK(used && v->v >= 1000, "%s: surplus element %d", what, v->v);
					v->v = 0;
				}
			};
			if (threw) {
				expect(a, 1, n, "source of a failed copy");
				while (auto v = b.pop()) v->v = 0;
			} else {
				expect(b, 1, n, "target");
				expect(a, 1, copy ? n : 0, "source");
			}
			vrt_count("threw", threw);
			vrt_count("used_by_destructors", used);
			vrt_sig(n * 1000 + m * 100 + use * 8 + copy * 4 + fuse * 10000);
		}
		CHECK(g_alive == 0, "%d elements leaked", g_alive);
		vrt_nontrivial();
		check_quiescent();
	}
} // namespace
SCENARIOS({"mixed", mixed, 0}, {"transfer", transfer, 0}, {"cross", cross, 0}, {"elements", elements, VRT_SINGLE})
