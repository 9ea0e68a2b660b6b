// C05/C06: channel delivery and closing
#include "hd.h"
#include <asyncpp/channel.h>
#include <atomic>
#include <optional>
using namespace h;
namespace {
	struct msg {
		tracked t;
		std::unique_ptr<data> payload;
		msg() : t(-1) {}
		explicit msg(int v) : t(v), payload(std::make_unique<data>()) { payload->write(v * 10L); }
		msg(msg&&) = default;
		msg& operator=(msg&&) = default;
		int take() const {
			int v = t.get();
			CHECK(payload && payload->read() == v * 10L, "value %d arrived without its payload", v);
			return v;
		}
	};
	using chan = asyncpp::channel<msg>;
	enum { RREG, RDONE, WREG, WDONE, TRYR, TRYW, CLOSE, ISC };
	const char* const names[] = {"read", "read_done", "write", "write_done", "try_read", "try_write", "close", "is_closed"};
	struct model {
		bool closed = false;
		std::vector<int> readers;
		std::vector<std::pair<int, int>> writers; // id, value
		std::map<int, int> rres;				  // -1 none
		std::map<int, int> wres;
		bool apply(const op& o) {
			int id = (int)o.a;
			switch (o.kind) {
			case RREG:
				if (closed) rres[id] = -1;
				else if (!writers.empty()) {
					rres[id] = writers.front().second;
					wres[writers.front().first] = 1;
					writers.erase(writers.begin());
				} else
					readers.push_back(id);
				return true;
			case RDONE: {
				auto it = rres.find(id);
				if (it == rres.end() || it->second != o.r) return false;
				rres.erase(it);
				return true;
			}
			case WREG:
				if (closed) wres[id] = 0;
				else if (!readers.empty()) {
					rres[readers.front()] = (int)o.b;
					readers.erase(readers.begin());
					wres[id] = 1;
				} else
					writers.emplace_back(id, (int)o.b);
				return true;
			case WDONE: {
				auto it = wres.find(id);
				if (it == wres.end() || it->second != o.r) return false;
				wres.erase(it);
				return true;
			}
			case TRYR:
				if (closed || writers.empty()) return o.r == -1;
				if (o.r != writers.front().second) return false;
				wres[writers.front().first] = 1;
				writers.erase(writers.begin());
				return true;
			case TRYW:
				if (closed || readers.empty()) return o.r == 0;
				if (o.r != 1) return false;
				rres[readers.front()] = (int)o.b;
				readers.erase(readers.begin());
				return true;
			case CLOSE:
				closed = true;
				for (int r : readers) rres[r] = -1;
				for (auto& w : writers) wres[w.first] = 0;
				readers.clear();
				writers.clear();
				return true;
			case ISC: return o.r == (closed ? 1 : 0);
			}
			return false;
		}
		u64 key() const {
			u64 k = closed;
			for (int r : readers) k = hmix(k, 1000 + r);
			for (auto& w : writers) k = hmix(k, 2000 + w.first);
			for (auto& x : rres) k = hmix(k, hmix(x.first, x.second + 5));
			for (auto& x : wres) k = hmix(k, hmix(x.first, x.second + 9000));
			return k;
		}
	};
	struct world {
		chan ch;
		history hist;
		mon<int> nid, delivered, nval, closed_returned;
		pump* p = nullptr;
		void close_reg(int o) {
			vrt_ignore i;
			if (!hist.ops[o].done) hist.end(o, 0);
		}
		asyncpp::dispatcher* pickd() { return p && coin() ? p : nullptr; }
		void done(int reg, int kind, int id, long r) {
			vrt_ignore i;
			close_reg(reg);
			int d = hist.begin(kind, id);
			hist.end(d, r);
		}
		void do_close() {
			int o = hist.begin(CLOSE);
			ch.close();
			hist.end(o);
			closed_returned.set(1);
		}
		void try_read() {
			int o = hist.begin(TRYR);
			auto v = ch.try_read();
			int r = v ? v->take() : -1;
			if (v) delivered.add(1);
			hist.end(o, r);
		}
		void try_write() {
			int v = 1 + nval.add(1);
			int o = hist.begin(TRYW, 0, v);
			bool r = ch.try_write(msg(v));
			hist.end(o, r);
		}
		bool query() {
			int o = hist.begin(ISC);
			bool r = ch.is_closed();
			hist.end(o, r);
			return r;
		}
	};
	co reader(world& w, int n, int* reg, int* after) {
		for (int k = 0; k < n; k++) {
			int id = w.nid.add(1);
			int o = w.hist.begin(RREG, id);
			if (k == 0) *reg = o;
			std::optional<msg> v;
			if (w.p && coin(3)) v = co_await w.ch.read().resume_on(w.pickd());
			else v = co_await w.ch.read();
			int r = v ? v->take() : -1;
			if (v) w.delivered.add(1);
			w.done(o, RDONE, id, r);
			if (*after == 1) {
				if (r == -1) {
					CHECK(w.query(), "read() yielded nullopt but the channel is not closed");
					w.do_close();
				}
			} else if (*after == 2) w.try_read();
			else if (*after == 3) w.try_write();
			if (r == -1 && k + 1 < n && coin()) break;
		}
	}
	co writer(world& w, int n, int* reg, int* after) {
		for (int k = 0; k < n; k++) {
			int id = w.nid.add(1);
			int v = 1 + w.nval.add(1);
			int o = w.hist.begin(WREG, id, v);
			if (k == 0) *reg = o;
			bool r;
			if (w.p && coin(3)) r = co_await w.ch.write(msg(v)).resume_on(w.pickd());
			else r = co_await w.ch.write(msg(v));
			w.done(o, WDONE, id, r);
			if (*after == 1) {
				if (!r) {
					CHECK(w.query(), "write() yielded false but the channel is not closed");
					w.do_close();
				}
			} else if (*after == 2) w.try_read();
			else if (*after == 3) w.try_write();
			if (!r && k + 1 < n && coin()) break;
		}
	}
	void run(int closes, bool with_pump) {
		reset_globals();
		{
			world w;
			std::optional<pump> p;
			if (with_pump) {
				p.emplace(1);
				w.p = &*p;
			}
			int nt = 2 + (int)rnd(3);
			std::vector<std::vector<int>> prog(nt);
			for (auto& t : prog)
				for (int k = 1 + (int)rnd(nt > 3 ? 3 : 4); k > 0; k--) t.push_back((int)rnd(20));
			std::vector<std::unique_ptr<int>> afters;
			for (int k = 0; k < closes; k++) {
				auto& v = prog[rnd(nt)];
				v.insert(v.begin() + rnd(v.size() + 1), 99);
			}
			int after[4] = {0, 1, 2, 3};
			parallel(nt, [&](int t) {
				for (int c : prog[t]) {
					if (c == 99) w.do_close();
					else if (c < 14) {
						int reg;
						int n = coin(4) ? 2 : 1;
						int* a = &after[rnd(3) ? 0 : rnd(4)];
						if (c < 7) reader(w, n, &reg, a);
						else writer(w, n, &reg, a);
						w.close_reg(reg);
					} else if (c < 16) w.try_read();
					else if (c < 18) w.try_write();
					else w.query();
				}
			});
			if (p) p->stop();
			int suspended = live_co();
			w.do_close();
			CHECK(w.ch.is_closed(), "not closed after close()");
			vrt_ignore ig;
			if (live_co()) {
				w.hist.dump(names);
				vrt_fail("oracle", "%d operation(s) stay suspended after close()", live_co());
			}
			for (size_t i = 0; i < w.hist.ops.size(); i++)
				if (!w.hist.ops[i].done) w.hist.end((int)i, 0);
			int r = linearizable(w.hist.ops, model{}, 60000);
			if (r == 0) {
				w.hist.dump(names);
				vrt_fail("oracle", "history is not explained by a channel");
			}
			vrt_count(r < 0 ? "inconclusive_histories" : "histories_checked", 1);
			vrt_count("delivered", w.delivered.get());
			vrt_count("operations", w.hist.ops.size());
			vrt_count("suspended_at_end", suspended);
			w.hist.signature();
			if (w.hist.overlapped() && (w.delivered.get() || closes)) vrt_nontrivial();
			w.hist.dump(names);
		}
		check_quiescent();
	}
	void mixed() { run(0, false); }
	void mixed_pump() { run(0, true); }
	void closing() { run(1 + (int)rnd(2), false); }
	void closing_pump() { run(1 + (int)rnd(2), true); }
	// streaming: producers write n values each, consumers read until closed
	co produce(chan& ch, int base, int n, mon<int>& ok, mon<int>& active, bool closer) {
		for (int i = 0; i < n; i++) {
			bool r = co_await ch.write(msg(base + i));
			CHECK(r, "write() yielded false although the channel was not closed");
			ok.add(1);
		}
		if (active.add(-1) == 1 && closer) ch.close();
	}
	co consume(chan& ch, std::vector<int>& got, mon<int>& ends) {
		while (true) {
			auto v = co_await ch.read();
			if (!v) break;
			int x = v->take();
			vrt_ignore i;
			got.push_back(x);
		}
		CHECK(ch.is_closed(), "read() yielded nullopt on an open channel");
		ends.add(1);
	}
	void stream() {
		reset_globals();
		{
			chan ch;
			int np = 1 + (int)rnd(3), nc = 1 + (int)rnd(2), n = 1 + (int)rnd(5);
			mon<int> ok, active(np), ends;
			std::vector<int> got[2];
			parallel(np + nc, [&](int t) {
				if (t < np) produce(ch, 100 * (t + 1), n, ok, active, true);
				else consume(ch, got[t - np], ends);
			});
			vrt_ignore ig;
			CHECK(ends.get() == nc, "%d of %d consumers saw the end", ends.get(), nc);
			CHECK(ok.get() == np * n, "%d of %d writes succeeded", ok.get(), np * n);
			std::set<int> all;
			for (int c = 0; c < nc; c++) {
				std::map<int, int> last;
				for (int x : got[c]) {
					CHECK(all.insert(x).second, "value %d read twice", x);
					CHECK(last[x / 100] < x, "values of one writer read out of order");
					last[x / 100] = x;
				}
			}
			CHECK((int)all.size() == np * n, "%zu of %d values delivered", all.size(), np * n);
			for (int c = 0; c < nc; c++)
				for (int x : got[c]) vrt_sig(x * 2 + c);
			vrt_count("delivered", np * n);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	// close() racing with operations in every phase
	void close_race() {
		reset_globals();
		{
			world w;
			int nt = 2 + (int)rnd(2);
			int after[4] = {0, 1, 2, 3};
			bool two = coin(3);
			std::atomic<int> isc{0};
			parallel(nt + 1, [&](int t) {
				if (t == 0) {
					for (int y = (int)rnd(4); y > 0; y--) vrt_yield();
					w.do_close();
				} else {
					int reg;
					if (two && t == nt) {
						w.do_close();
						return;
					}
					bool was = coin(3) && w.query();
					int* a = &after[coin() ? 1 : 0];
					bool rd = coin();
					int susp = live_co();
					(void)susp;
					if (rd) reader(w, 1, &reg, a);
					else writer(w, 1, &reg, a);
					if (was) CHECK(w.hist.ops[reg].done, "operation suspended although is_closed() had returned true");
					w.close_reg(reg);
				}
			});
			vrt_ignore ig;
			if (live_co()) {
				w.hist.dump(names);
				vrt_fail("oracle", "%d operation(s) stay suspended on a closed channel", live_co());
			}
			for (size_t i = 0; i < w.hist.ops.size(); i++)
				if (!w.hist.ops[i].done) w.hist.end((int)i, 0);
			int r = linearizable(w.hist.ops, model{}, 60000);
			if (r == 0) {
				w.hist.dump(names);
				vrt_fail("oracle", "history is not explained by a channel");
			}
			vrt_count(r < 0 ? "inconclusive_histories" : "histories_checked", 1);
			vrt_count("operations", w.hist.ops.size());
			w.hist.signature();
			vrt_nontrivial();
			w.hist.dump(names);
		}
		check_quiescent();
	}
	// Values whose move can fail: whoever is suspended on the other side keeps waiting (and keeps its value).
	struct err {
		int v;
	};
	int g_fuse = 0; // the n-th copy from now throws
	struct brittle {
		int v;
		explicit brittle(int v) : v(v) {}
		brittle(const brittle& o) : v(o.v) {
			if (g_fuse > 0 && --g_fuse == 0) throw err{v};
		}
		brittle& operator=(const brittle& o) {
			if (g_fuse > 0 && --g_fuse == 0) throw err{o.v};
			v = o.v;
			return *this;
		}
	};
	using bchan = asyncpp::channel<brittle>;
	co brittle_read(bchan& c, manual& man, int id, int fuse, bool& threw, std::vector<int>& log) {
		auto aw = c.read();
		aw.resume_on(&man);
		std::optional<brittle> v;
		try {
			g_fuse = fuse;
			auto r = co_await aw;
			g_fuse = 0;
			v.emplace(r ? r->v : -1);
		} catch (const err&) {
			g_fuse = 0;
			threw = true;
			co_return;
		}
		vrt_ignore ig;
		log.push_back(id);
		log.push_back(v->v);
	}
	co brittle_write(bchan& c, manual& man, int v, int fuse, bool& threw, std::vector<int>& log) {
		auto aw = c.write(brittle(v));
		aw.resume_on(&man);
		bool r = false;
		try {
			g_fuse = fuse;
			r = co_await aw;
			g_fuse = 0;
		} catch (const err&) {
			g_fuse = 0;
			threw = true;
			co_return;
		}
		vrt_ignore ig;
		log.push_back(r ? v : -v);
	}
	void failing() {
		reset_globals();
		{
			g_fuse = 0;
			bchan c;
			manual man;
			std::deque<int> readers, writers;
			std::vector<int> rlog, rexp, wlog, wexp;
			int next = 1, threws = 0, waited = 0, n = 10 + (int)rnd(30);
			bool unused = false;
			for (int i = 0; i < n; i++) {
				int k = (int)rnd(4), v = next++, fuse = coin() ? 1 + (int)rnd(3) : 0;
				bool threw = false;
				size_t nw = writers.size(), nr = readers.size();
				vrt_sig(k * 4 + fuse);
				switch (k) {
				case 0: {
					brittle b(v);
					bool res = false;
					g_fuse = fuse;
					try {
						res = c.try_write(b);
					} catch (const err&) { threw = true; }
					g_fuse = 0;
					if (!threw) {
						CHECK(res == !readers.empty(), "try_write returned %d with %zu suspended readers", res, nr);
						if (res) {
							rexp.push_back(readers.front());
							rexp.push_back(v);
							readers.pop_front();
						}
					}
					break;
				}
				case 1: {
					g_fuse = fuse;
					try {
						auto r = c.try_read();
						g_fuse = 0;
						CHECK(r.has_value() == !writers.empty(), "try_read with %zu suspended writers %s", nw, r ? "succeeded" : "failed");
						if (r) {
							CHECK(r->v == writers.front(), "read %d, the first writer wrote %d", r->v, writers.front());
							wexp.push_back(r->v);
							writers.pop_front();
						}
					} catch (const err&) { threw = true; }
					g_fuse = 0;
					break;
				}
				case 2:
					if (readers.empty()) {
						brittle_write(c, man, v, 0, unused, wlog);
						writers.push_back(v);
					} else {
						brittle_write(c, man, v, fuse, threw, wlog);
						if (!threw) {
							rexp.push_back(readers.front());
							rexp.push_back(v);
							readers.pop_front();
							wexp.push_back(v);
						}
					}
					break;
				default:
					if (writers.empty()) {
						brittle_read(c, man, v, 0, unused, rlog);
						readers.push_back(v);
					} else {
						brittle_read(c, man, v, fuse, threw, rlog);
						if (!threw) {
							rexp.push_back(v);
							rexp.push_back(writers.front());
							wexp.push_back(writers.front());
							writers.pop_front();
						}
					}
				}
				g_fuse = 0;
				man.run_all();
				if (threw) {
					threws++;
					if (nw + nr) waited++;
					// A reader may fail after it got the value out, then the writer has to know.
					if (nw && wlog.size() == wexp.size() + 1 && wlog.back() == writers.front()) {
						wexp.push_back(writers.front());
						writers.pop_front();
					}
				}
				CHECK(rlog == rexp, "suspended reads: %zu results, expected %zu (last operation %s)", rlog.size() / 2, rexp.size() / 2, threw ? "threw" : "did not throw");
				CHECK(wlog == wexp, "writes completed: %zu, expected %zu (last operation %s)", wlog.size(), wexp.size(), threw ? "threw" : "did not throw");
			}
			if (coin()) { // the others are still served in order
				while (!readers.empty()) {
					int v = next++;
					CHECK(c.try_write(brittle(v)), "try_write failed although somebody waits");
					rexp.push_back(readers.front());
					rexp.push_back(v);
					readers.pop_front();
				}
				while (!writers.empty()) {
					auto r = c.try_read();
					CHECK(r && r->v == writers.front(), "suspended writer is not served after another operation threw");
					wexp.push_back(writers.front());
					writers.pop_front();
				}
			}
			c.close();
			man.run_all();
			for (int id : readers) {
				rexp.push_back(id);
				rexp.push_back(-1);
			}
			for (int v : writers) wexp.push_back(-v);
			CHECK(rlog == rexp, "close() released %zu readers, expected %zu", rlog.size() / 2, rexp.size() / 2);
			CHECK(wlog == wexp, "close() released %zu writers, expected %zu", wlog.size(), wexp.size());
			vrt_count("threw", threws);
			vrt_count("threw_with_waiter", waited);
			if (threws) vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ close() and what the released coroutines do
	struct box {
		chan c;
		data d;
		mon<int> sent, got, ended;
	};
	co owner_read(std::shared_ptr<box> b, std::thread* x, std::thread::id main) {
		while (true) {
			auto v = co_await b->c.read();
			if (!v) break;
			b->got.add(v->take());
		}
		b->ended.add(1);
		if (x && std::this_thread::get_id() == main) x->join();
	}
	co owner_write(std::shared_ptr<box> b, int v, std::thread* x, std::thread::id main) {
		while (co_await b->c.write(msg(v))) b->sent.add(v++);
		b->ended.add(1);
		if (x && std::this_thread::get_id() == main) x->join();
	}
	void owned() {
		reset_globals();
		{
			auto b = std::make_shared<box>();
			bool rd = coin(), keep = coin(3), joins = coin();
			int n = 1 + (int)rnd(3), ops = 1 + (int)rnd(4);
			std::thread x;
			auto* w = joins ? &x : nullptr;
			auto me = std::this_thread::get_id();
			if (rd)
				for (int i = 0; i < n; i++) owner_read(b, i == 0 ? w : nullptr, me);
			else
				for (int i = 0; i < n; i++) owner_write(b, 100 * i, i == 0 ? w : nullptr, me);
			CHECK(live_co() == n, "%d coroutines suspended, expected %d", live_co(), n);
			x = std::thread([b, rd, ops, keep]() mutable { // without keep only close() may release the coroutines
				for (int i = 0; i < ops; i++) {
					if (!keep || vrt_rand(4) == 0) (void)b->c.is_closed();
					else if (rd) {
						if (b->c.try_write(msg(1000 + i))) b->sent.add(1000 + i);
					} else if (auto v = b->c.try_read()) b->got.add(v->take());
				}
				b.reset();
			});
			chan& c = b->c;
			std::shared_ptr<box> kept;
			if (keep) kept = b;
			b.reset();
			for (int y = (int)rnd(6); y > 0; y--) vrt_yield();
			c.close(); // the coroutines own the channel, it may be gone by now
			if (x.joinable()) x.join();
			CHECK(live_co() == 0, "%d coroutine(s) stay suspended on a closed channel", live_co());
			if (kept) {
				CHECK(kept->ended.get() == n, "%d of %d coroutines ended", kept->ended.get(), n);
				CHECK(kept->sent.get() == kept->got.get(), "values sent and received differ");
				CHECK(kept->c.is_closed() && !kept->c.try_write(msg(5)) && !kept->c.try_read(), "not closed after close()");
			}
			vrt_sig(rd * 64 + keep * 32 + joins * 16 + n);
			vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"mixed", mixed, 0}, {"mixed_pump", mixed_pump, 0}, {"stream", stream, 0}, {"closing", closing, 0}, {"closing_pump", closing_pump, 0}, {"close_race", close_race, 0}, {"owned", owned, 0}, {"failing", failing, VRT_SINGLE})
