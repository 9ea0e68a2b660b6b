// C16: the stop_token polyfill behaves like std::stop_token
#include "h.h"
#include <asyncpp/stop_token.h>
#include <optional>
using namespace h;
using asyncpp::stop_source;
using asyncpp::stop_token;
namespace {
	struct callback;
	struct fn {
		callback* c;
		tracked t;
		void operator()() const noexcept;
	};
	using scb = asyncpp::stop_callback<fn>;
	struct callback {
		int id = 0;
		std::function<void()> act;
		std::unique_ptr<scb> cb;
		template<class T>
		void make(T&& tok) {
			cb = std::make_unique<scb>(std::forward<T>(tok), fn{this, tracked(id)});
		}
		mon<int> runs, constructing, running, destroyed;
		mon<int> run_tid{-1};
		std::atomic<int> own{0}; // 1: constructed, 2: somebody destroys it
		bool claim() {
			int e = 1;
			return own.compare_exchange_strong(e, 2);
		}
		moment run_begin, run_end;
		data out; // written by the callback, read after the destructor returned
		data in;  // written before registration, read by the callback
	};
	void fn::operator()() const noexcept {
		callback& k = *c;
		CHECK(t.get() == k.id, "callback object damaged");
		CHECK(k.runs.add(1) == 0, "callback %d invoked twice", k.id);
		CHECK(!k.destroyed.get(), "callback %d invoked after its stop_callback was destroyed", k.id);
		k.running.set(1);
		k.run_tid.set(vrt_tid());
		k.run_begin = moment::now();
		CHECK(k.in.read() == k.id, "callback %d does not see what happened before its registration", k.id);
		k.out.write(1);
		if (k.act) k.act();
		k.run_end = moment::now();
		k.running.set(0);
	}
	struct quiet_delete {
		void operator()(callback* p) const { delete p; }
	};

	// ---------------- one thread, arbitrary handle operations and reentrancy, against a model
	const int NS = 5, NT = 5, NC = 6;
	struct model_world {
		struct st {
			int sources = 0;
			bool requested = false;
		};
		std::vector<st> states;
		std::optional<stop_source> s[NS];
		int ms[NS]; // state id, -1 none
		std::optional<stop_token> t[NT];
		int mt[NT];
		struct slot {
			std::unique_ptr<callback> c;
			int state = -1;
			bool expect_run = false;
		} cb[NC];
		int next_id = 1, depth = 0, budget = 160;
		int new_state() {
			vrt_ignore i;
			states.push_back({1, false});
			return (int)states.size() - 1;
		}
		void sub(int id) {
			if (id >= 0) states[id].sources--;
		}
		void add(int id) {
			if (id >= 0) states[id].sources++;
		}
		void verify() {
			for (int i = 0; i < NS; i++) {
				if (!s[i]) continue;
				CHECK(s[i]->stop_possible() == (ms[i] >= 0), "source.stop_possible() is %d", (int)s[i]->stop_possible());
				CHECK(s[i]->stop_requested() == (ms[i] >= 0 && states[ms[i]].requested), "source.stop_requested() is %d", (int)s[i]->stop_requested());
				for (int j = 0; j < NS; j++)
					if (s[j]) CHECK((*s[i] == *s[j]) == (ms[i] == ms[j]) && (*s[i] != *s[j]) == (ms[i] != ms[j]), "comparison of sources of states %d and %d is wrong", ms[i], ms[j]);
			}
			for (int i = 0; i < NT; i++) {
				if (!t[i]) continue;
				bool req = mt[i] >= 0 && states[mt[i]].requested;
				bool pos = mt[i] >= 0 && (req || states[mt[i]].sources > 0);
				CHECK(t[i]->stop_possible() == pos, "token.stop_possible() is %d, %d sources left, requested %d", (int)t[i]->stop_possible(), mt[i] >= 0 ? states[mt[i]].sources : -1, (int)req);
				CHECK(t[i]->stop_requested() == req, "token.stop_requested() is %d", (int)t[i]->stop_requested());
				for (int j = 0; j < NT; j++)
					if (t[j]) CHECK((*t[i] == *t[j]) == (mt[i] == mt[j]) && (*t[i] != *t[j]) == (mt[i] != mt[j]), "comparison of tokens of states %d and %d is wrong", mt[i], mt[j]);
			}
		}
		void set_s(int i, int id) { ms[i] = id; }
		void kill_cb(int k) {
			auto& sl = cb[k];
			if (!sl.c) return;
			callback* c = sl.c.get();
			int before = c->runs.get();
			bool self = c->running.get();
			if (c->constructing.get()) return; // inside its own constructor
			c->cb.reset();
			CHECK(c->runs.get() == before, "destroying a stop_callback invoked it");
			c->destroyed.set(1);
			sl.state = -1;
			if (!self) sl.c.reset();
			else graveyard(k);
			vrt_count("callbacks_destroyed", 1);
		}
		std::vector<std::unique_ptr<callback>> dead;
		void graveyard(int k) {
			vrt_ignore i;
			dead.push_back(std::move(cb[k].c));
		}
		void make_cb(int k) {
			auto& sl = cb[k];
			if (sl.c) return;
			int ti = (int)rnd(NT);
			if (!t[ti]) return;
			sl.c = std::make_unique<callback>();
			callback* c = sl.c.get();
			c->id = next_id++;
			c->in.write(c->id);
			if (depth < 2 && coin(2)) {
				int what = (int)rnd(4), other = (int)rnd(NC);
				c->act = [this, k, what, other]() {
					depth++;
					if (what == 0) kill_cb(k); // itself
					else if (what == 1) kill_cb(other);
					else if (what == 2) make_cb(other);
					else step();
					depth--;
				};
			}
			int id = mt[ti];
			sl.state = id;
			bool run_now = id >= 0 && states[id].requested;
			c->constructing.set(1);
			if (coin()) {
				const stop_token& ct = *t[ti];
				c->make(ct);
			} else {
				stop_token tmp = *t[ti];
				if (coin()) c->make(std::move(tmp));
				else {
					c->make(std::move(*t[ti]));
					t[ti].reset();
				}
			}
			c->constructing.set(0);
			CHECK(c->runs.get() == (int)run_now, "callback %d ran %d times during its construction, stop was %srequested", c->id, c->runs.get(), run_now ? "" : "not ");
			vrt_count("callbacks_registered", 1);
		}
		void request(int i) {
			if (!s[i]) return;
			stop_source keep = *s[i]; // the library need not survive losing its source while it runs
			int id = ms[i];
			add(id);
			bool want = id >= 0 && !states[id].requested;
			if (id >= 0) states[id].requested = true;
			bool r = keep.request_stop();
			CHECK(r == want, "request_stop() returned %d", (int)r);
			if (want) {
				for (auto& sl : cb)
					if (sl.c && sl.state == id && !sl.c->running.get())
						CHECK(sl.c->runs.get() == 1, "callback %d ran %d times after stop was requested", sl.c->id, sl.c->runs.get());
				vrt_count("stops", 1);
			}
			sub(id);
		}
		void step() {
			if (budget-- < 0) return;
			int i = (int)rnd(NS), j = (int)rnd(NS), p = (int)rnd(NT), q = (int)rnd(NT);
			switch (rnd(20)) {
			case 0:
				if (s[i]) sub(ms[i]);
				if (coin(4)) {
					s[i].emplace(asyncpp::nostopstate);
					ms[i] = -1;
				} else {
					s[i].emplace();
					ms[i] = new_state();
				}
				break;
			case 1: // copy construct
				if (i == j || !s[j]) break;
				if (s[i]) sub(ms[i]);
				s[i].reset();
				s[i].emplace(std::as_const(*s[j]));
				ms[i] = ms[j];
				add(ms[i]);
				break;
			case 2: // move construct
				if (i == j || !s[j]) break;
				if (s[i]) sub(ms[i]);
				s[i].reset();
				s[i].emplace(std::move(*s[j]));
				ms[i] = ms[j];
				ms[j] = -1;
				break;
			case 3: // copy assign, possibly to itself
				if (!s[i] || !s[j]) break;
				*s[i] = std::as_const(*s[j]);
				sub(ms[i]);
				ms[i] = ms[j];
				add(ms[i]);
				break;
			case 4: // move assign
				if (!s[i] || !s[j]) break;
				*s[i] = std::move(*s[j]);
				if (i == j) break; // assigning to itself changes nothing
				sub(ms[i]);
				ms[i] = ms[j];
				ms[j] = -1;
				break;
			case 5:
				if (!s[i] || !s[j]) break;
				if (coin()) s[i]->swap(*s[j]);
				else {
					using std::swap;
					swap(*s[i], *s[j]);
				}
				std::swap(ms[i], ms[j]);
				break;
			case 6:
				if (!s[i]) break;
				s[i].reset();
				sub(ms[i]);
				break;
			case 7:
			case 8:
				if (!s[i]) break;
				if (t[p] && coin()) *t[p] = s[i]->get_token();
				else t[p].emplace(s[i]->get_token());
				mt[p] = ms[i];
				break;
			case 9:
				if (!t[p] || !t[q]) break;
				if (coin()) {
					*t[p] = std::as_const(*t[q]);
					mt[p] = mt[q];
				} else if (p != q) {
					*t[p] = std::move(*t[q]);
					mt[p] = mt[q];
					mt[q] = -1;
				}
				break;
			case 10:
				if (!t[q] || p == q) break;
				t[p].reset();
				if (coin()) {
					t[p].emplace(*t[q]);
					mt[p] = mt[q];
				} else {
					t[p].emplace(std::move(*t[q]));
					mt[p] = mt[q];
					mt[q] = -1;
				}
				break;
			case 11:
				if (!t[p] || !t[q]) break;
				if (coin()) t[p]->swap(*t[q]);
				else swap(*t[p], *t[q]);
				std::swap(mt[p], mt[q]);
				break;
			case 12:
				if (coin()) t[p].reset();
				else {
					t[p].emplace();
					mt[p] = -1;
				}
				break;
			case 13:
			case 14:
			case 15: make_cb((int)rnd(NC)); break;
			case 16: kill_cb((int)rnd(NC)); break;
			case 17:
				if (coin(2)) request(i);
				break;
			case 18: verify(); break;
			case 19: // self swap
				if (s[i]) s[i]->swap(*s[i]);
				break;
			}
		}
	};
	void handles() {
		reset_globals();
		{
			model_world w;
			for (int i = 0; i < 2; i++) {
				w.s[i].emplace();
				w.ms[i] = w.new_state();
				w.t[i].emplace(w.s[i]->get_token());
				w.mt[i] = w.ms[i];
			}
			int n = 50 + (int)rnd(70);
			for (int k = 0; k < n; k++) w.step();
			w.budget = 10;
			w.verify();
			for (int i = 0; i < NS; i++)
				if (w.s[i] && coin()) w.request(i);
			w.verify();
			int order = (int)rnd(2);
			if (order) for (auto& x : w.s) x.reset();
			for (int k = 0; k < NC; k++) w.kill_cb(k);
			vrt_sig((u64)w.next_id * 1000 + w.states.size());
			for (auto& st : w.states) vrt_sig(st.sources * 2 + st.requested);
			vrt_ignore ig;
			decltype(w.states)().swap(w.states);
		}
		vrt_nontrivial();
		check_quiescent();
	}

	// ---------------- several threads
	struct rec {
		std::unique_ptr<callback> c;
		moment reg_call, reg_ret, dereg_call, dereg_ret;
		int reg_tid = -1;
		bool self_destroyed = false;
	};
	struct req {
		moment call, ret;
		bool result = false;
		int tid = -1;
	};
	struct shared_state {
		std::optional<stop_source> src;
		stop_token tok;
		std::vector<rec> recs;
		std::vector<req> reqs;
		mon<int> winner{-1};
	};
	void race() {
		reset_globals();
		{
			shared_state g;
			g.src.emplace();
			g.tok = g.src->get_token();
			int nt = 2 + (int)rnd(3);
			struct step {
				int kind, a, b;
			};
			std::vector<std::vector<step>> prog(nt);
			std::vector<stop_source> own;
			std::vector<stop_token> otok;
			{
				int id = 0;
				for (auto& p : prog) {
					int n = 2 + (int)rnd(4);
					for (int k = 0; k < n; k++) {
						step s{(int)rnd(10), 0, (int)rnd(6)};
						if (s.kind <= 5) {
							s.a = id++;
							g.recs.emplace_back();
						} else if (s.kind == 6 || s.kind == 7) {
							s.a = (int)g.reqs.size();
							g.reqs.emplace_back();
						}
						p.push_back(s);
					}
				}
			}
			for (int i = 0; i < nt; i++) {
				own.push_back(*g.src);
				otok.push_back(g.tok);
			}
			stop_source always = *g.src;
			stop_token atok = g.tok;
			if (coin()) g.src.reset();
			mon<int> done_reqs;
			for (size_t k = 0; k < g.recs.size(); k++) {
				g.recs[k].c = std::make_unique<callback>();
				g.recs[k].c->id = (int)k + 1;
			}
			auto dereg = [&](rec& r, bool from_inside) {
				r.self_destroyed = from_inside;
				r.dereg_call = moment::now();
				r.c->cb.reset();
				r.c->destroyed.set(1);
				r.dereg_ret = moment::now();
				if (!from_inside) {
					CHECK(!r.c->running.get(), "stop_callback's destructor returned while the callback was running on another thread");
					int ran = r.c->runs.get();
					long seen = r.c->out.read();
					CHECK(seen == ran, "effects of callback %d not visible after the destructor", r.c->id);
				}
			};
			parallel(nt, [&](int t) {
				std::vector<int> mine;
				for (auto& s : prog[t]) {
					if (s.kind <= 5) {
						rec& r = g.recs[s.a];
						r.reg_tid = vrt_tid();
						r.c->in.write(r.c->id);
						bool selfdestroy = s.b == 0, kill_other = s.b == 1, req_inside = s.b == 2, reg_inside = s.b == 3;
						int other = mine.empty() ? -1 : mine.back();
						rec* rp = &r;
						r.c->act = [&, rp, selfdestroy, kill_other, req_inside, reg_inside, other]() {
							if (selfdestroy && rp->c->claim()) dereg(*rp, true);
							if (kill_other && other >= 0 && rp->c->run_tid.get() == rp->reg_tid && g.recs[other].c->claim()) dereg(g.recs[other], false);
							if (req_inside) CHECK(!always.request_stop(), "request_stop() from a callback returned true");
							if (reg_inside) {
								callback in;
								in.id = 1000 + rp->c->id;
								in.in.write(in.id);
								in.make(atok);
								CHECK(in.runs.get() == 1, "a callback registered from inside a callback did not run");
								in.cb.reset();
							}
							CHECK(atok.stop_requested(), "stop not requested inside a callback");
						};
						r.c->constructing.set(1);
						r.reg_call = moment::now();
						if (coin()) r.c->make(otok[t]);
						else r.c->make(stop_token(otok[t]));
						r.reg_ret = moment::now();
						r.c->constructing.set(0);
						r.c->own.store(1);
						mine.push_back(s.a);
						if (s.b == 5 && r.c->claim()) dereg(r, false);
					} else if (s.kind <= 7) {
						req& q = g.reqs[s.a];
						q.tid = vrt_tid();
						q.call = moment::now();
						q.result = own[t].request_stop();
						q.ret = moment::now();
						if (q.result) CHECK(g.winner.add(t + 1) == -1, "request_stop() returned true twice");
						CHECK(own[t].stop_requested() && otok[t].stop_requested() && otok[t].stop_possible(), "stop not requested after request_stop()");
						done_reqs.add(1);
					} else if (s.kind == 8) {
						stop_source a = own[t];
						stop_source b(std::move(a));
						stop_token x = b.get_token();
						if (coin()) {
							stop_source fresh;
							own[t] = fresh;
							own[t] = std::move(b);
						} else own[t].swap(b);
						CHECK(x == otok[t], "token of a copied source differs");
						otok[t] = x;
						CHECK(otok[t].stop_possible(), "no stop possible with a source alive");
					} else if (!mine.empty()) {
						rec& r = g.recs[mine[rnd(mine.size())]];
						if (coin() && r.c->claim()) dereg(r, false);
					}
				}
				// deregister the rest, except those that destroy themselves
				for (int k : mine) {
					rec& r = g.recs[k];
					if (coin(3) && r.c->claim()) dereg(r, false);
				}
			});
			// ---- verdict
			int wins = 0;
			const req* win = nullptr;
			for (auto& q : g.reqs)
				if (q.ret.set && q.result) {
					wins++;
					win = &q;
				}
			CHECK(wins == (g.reqs.empty() ? 0 : 1), "%zu request_stop() calls, %d returned true", g.reqs.size(), wins);
			int nrun = 0, inl = 0;
			for (auto& r : g.recs) {
				int ran = r.c->runs.get();
				if (!r.reg_call.set) continue;
				nrun += ran;
				if (ran) {
					CHECK(win, "callback ran without a stop request");
					bool inside = before(r.reg_call, r.c->run_begin) && before(r.c->run_end, r.reg_ret) && r.c->run_tid.get() == r.reg_tid;
					inl += inside;
					CHECK(r.c->run_tid.get() == win->tid || inside, "callback ran on neither the requesting nor the registering thread");
				}
				if (win && !ran) {
					if (before(win->ret, r.reg_call)) CHECK(false, "callback %d registered after the stop request did not run", r.c->id);
					if (!r.dereg_call.set) CHECK(false, "callback %d still registered did not run", r.c->id);
					if (before(r.reg_ret, win->call) && before(win->ret, r.dereg_call)) CHECK(false, "callback %d did not run", r.c->id);
				}
				if (ran && r.dereg_ret.set && !r.self_destroyed) {
					CHECK(!before(r.dereg_ret, win->call), "callback ran although it was deregistered before the request");
				}
			}
			vrt_count("callbacks_run", nrun);
			vrt_count("callbacks_run_at_registration", inl);
			vrt_count("requests", g.reqs.size());
			vrt_sig(nrun * 100 + inl);
			for (auto& r : g.recs) r.c->cb.reset();
			own.clear();
			always = stop_source(asyncpp::nostopstate);
			if (!g.reqs.empty()) CHECK(g.tok.stop_possible(), "stop_possible() false after a stop was requested");
			g.src.reset();
			CHECK(g.tok.stop_possible() == !g.reqs.empty(), "stop_possible() is %d with no source left", (int)g.tok.stop_possible());
			if (nrun) vrt_nontrivial();
		}
		check_quiescent();
	}
	// one thread stops, others destroy their callbacks meanwhile: data hand over in both directions
	void duel() {
		reset_globals();
		{
			stop_source src;
			int n = 1 + (int)rnd(3);
			std::vector<std::unique_ptr<callback>> cs;
			data pre;
			struct cond {
				data* p;
			};
			bool selfd[3];
			for (int i = 0; i < n; i++) {
				cs.push_back(std::make_unique<callback>());
				callback* c = cs.back().get();
				c->id = i + 1;
				c->in.write(i + 1);
				selfd[i] = coin(3);
				bool sd = selfd[i];
				int cost = (int)rnd(3);
				c->act = [c, &pre, sd, cost]() {
					CHECK(pre.read() == 9, "callback does not see what happened before request_stop()");
					for (int k = 0; k < cost; k++) std::this_thread::yield();
					if (sd) {
						c->cb.reset();
						c->destroyed.set(1);
					}
				};
				c->make(src.get_token());
			}
			stop_token tok = src.get_token();
			data post;
			mon<int> seen;
			parallel(n + 2, [&](int t) {
				if (t == 0) {
					pre.write(9);
					CHECK(src.request_stop(), "request_stop() returned false");
				} else if (t <= n) {
					callback* c = cs[t - 1].get();
					if (selfd[t - 1]) return;
					c->cb.reset();
					c->destroyed.set(1);
					CHECK(!c->running.get(), "stop_callback's destructor returned while the callback was running");
					CHECK(c->out.read() == c->runs.get(), "effects of the callback not visible after the destructor");
				} else {
					for (int k = 0; k < 3; k++) {
						if (tok.stop_requested()) {
							CHECK(pre.read() == 9, "stop_requested() does not publish");
							seen.add(1);
							break;
						}
						std::this_thread::yield();
					}
					callback late; // registered around the request
					late.id = 50;
					late.in.write(50);
					late.act = [&pre]() { CHECK(pre.read() == 9, "callback does not see what happened before request_stop()"); };
					late.make(tok);
					late.cb.reset();
					late.destroyed.set(1);
					CHECK(late.out.read() == late.runs.get(), "effects of the callback not visible after the destructor");
					stop_token t2 = tok;
					if (t2.stop_requested()) CHECK(pre.read() == 9, "stop_requested() does not publish");
				}
			});
			int ran = 0;
			for (int i = 0; i < n; i++) {
				if (selfd[i]) CHECK(cs[i]->runs.get() == 1, "callback that was never removed ran %d times", cs[i]->runs.get());
				ran += cs[i]->runs.get();
			}
			vrt_count("callbacks_run", ran);
			vrt_sig(ran * 10 + seen.get());
		}
		vrt_nontrivial();
		check_quiescent();
	}
	// owners on several threads disappear in any order; the state goes with the last one
	void drop() {
		reset_globals();
		{
			int n = 2 + (int)rnd(2);
			struct own {
				std::optional<stop_source> s;
				std::optional<stop_token> t;
				callback c;
				bool has_cb = false;
			};
			std::vector<std::unique_ptr<own>> o;
			bool anystop = coin(3);
			std::optional<stop_token> watch;
			{
				stop_source src;
				if (coin()) watch = src.get_token();
				for (int i = 0; i < n; i++) {
					o.push_back(std::make_unique<own>());
					if (coin(3) || (anystop && i == 0)) o[i]->s = src;
					if (coin()) o[i]->t = src.get_token();
					if (coin()) {
						o[i]->has_cb = true;
						o[i]->c.id = i + 1;
						o[i]->c.in.write(i + 1);
						o[i]->c.make(src.get_token());
					}
				}
			}
			bool no_source = true;
			for (auto& x : o) no_source &= !x->s;
			parallel(n, [&](int t) {
				own& x = *o[t];
				if (anystop && t == 0) x.s->request_stop();
				for (int k = 0; k < 2; k++) {
					if (x.t && no_source) CHECK(!x.t->stop_possible(), "stop_possible() with no source left and no stop requested");
					if (x.s && x.t) CHECK(x.t->stop_possible(), "stop not possible with a source left");
				}
				int k = (int)rnd(3);
				for (int i = 0; i < 3; i++) {
					if ((i + k) % 3 == 0) x.s.reset();
					if ((i + k) % 3 == 1) x.t.reset();
					if ((i + k) % 3 == 2 && x.has_cb) {
						x.c.cb.reset();
						x.c.destroyed.set(1);
						CHECK(x.c.out.read() == x.c.runs.get(), "effects of the callback not visible after the destructor");
					}
				}
			});
			if (watch) CHECK(watch->stop_possible() == anystop, "stop_possible() is %d with no source left", (int)watch->stop_possible());
			vrt_count("owners", n);
		}
		vrt_nontrivial();
		check_quiescent();
	}
	// how the callable is stored and called
	struct shape {
		int how = 0, runs = 0;
		const void* self = nullptr;
	};
	struct sorts {
		shape* sh;
		tracked t;
		void hit(int how) const {
			sh->runs++;
			sh->how = how;
			sh->self = this;
			CHECK(t.get() == 5, "callable damaged");
		}
		void operator()() & { hit(1); }
		void operator()() const& { hit(2); }
		void operator()() && { hit(3); }
		void operator()() const&& { hit(4); }
	};
	struct made_from { // constructed from what is passed, not copied
		shape* sh;
		std::unique_ptr<int> only;
		explicit made_from(shape* s) : sh(s), only(new int(3)) {}
		made_from(made_from&&) = delete;
		void operator()() {
			CHECK(*only == 3, "callable damaged");
			sh->runs++;
			sh->self = this;
		}
	};
	void fptr_target();
	int fptr_runs;
	void fptr_target() { fptr_runs++; }
	void shapes() {
		reset_globals();
		{
			shape sh;
			stop_source s;
			bool early = coin();
			if (early) s.request_stop();
			stop_token tok = s.get_token();
			bool move_tok = coin();
			auto check = [&](auto& cb, int how, const void* self) {
				CHECK(sh.runs == (early ? 1 : 0), "invoked %d times at registration, stop %srequested", sh.runs, early ? "" : "not ");
				if (!early) CHECK(s.request_stop(), "first request_stop returned false");
				CHECK(sh.runs == 1, "invoked %d times", sh.runs);
				if (how) CHECK(sh.how == how, "callable invoked as %d instead of %d (1 lvalue, 2 const lvalue, 3 rvalue, 4 const rvalue)", sh.how, how);
				if (self) CHECK(sh.self == self, "another object than the one given was invoked");
				else CHECK((const char*)sh.self >= (const char*)&cb && (const char*)sh.self < (const char*)(&cb + 1), "a copy of the stored callable was invoked");
				CHECK(!s.request_stop() && sh.runs == 1, "stop requested twice");
			};
			sorts f{&sh, tracked(5)};
			const sorts cf{&sh, tracked(5)};
			int k = (int)rnd(8);
			switch (k) {
			case 0: {
				asyncpp::stop_callback<sorts> cb(tok, f);
				check(cb, 3, nullptr);
				CHECK(f.t.get() == 5, "callable passed as lvalue was moved from");
				break;
			}
			case 1: {
				asyncpp::stop_callback<sorts&> cb(tok, f);
				check(cb, 1, &f);
				break;
			}
			case 2: {
				asyncpp::stop_callback<const sorts&> cb(tok, cf);
				check(cb, 2, &cf);
				break;
			}
			case 3: {
				asyncpp::stop_callback<const sorts> cb(tok, cf);
				check(cb, 4, nullptr);
				break;
			}
			case 4: {
				asyncpp::stop_callback cb(tok, f); // deduced
				static_assert(std::is_same_v<decltype(cb), asyncpp::stop_callback<sorts>>);
				static_assert(std::is_same_v<decltype(cb)::callback_type, sorts>);
				check(cb, 3, nullptr);
				break;
			}
			case 5: {
				if (move_tok) {
					asyncpp::stop_callback<made_from> cb(std::move(tok), &sh);
					check(cb, 0, nullptr);
				} else {
					asyncpp::stop_callback<made_from> cb(tok, &sh);
					check(cb, 0, nullptr);
				}
				break;
			}
			case 6: {
				auto sp = std::make_shared<int>(7);
				{
					asyncpp::stop_callback cb(tok, [sp, &sh, m = std::make_unique<int>(1)]() mutable {
						sh.runs++;
						CHECK(*sp == 7 && *m == 1, "captures damaged");
						*m = 2;
					});
					CHECK(sp.use_count() == 2, "%d copies of the callable exist", (int)sp.use_count());
					if (!early) s.request_stop();
					CHECK(sh.runs == 1, "invoked %d times", sh.runs);
					CHECK(sp.use_count() == 2, "callable destroyed before its stop_callback");
				}
				CHECK(sp.use_count() == 1, "callable not destroyed with its stop_callback");
				break;
			}
			default: {
				fptr_runs = 0;
				asyncpp::stop_callback cb(tok, &fptr_target);
				if (!early) s.request_stop();
				CHECK(fptr_runs == 1, "invoked %d times", fptr_runs);
			}
			}
			vrt_sig(k * 4 + early * 2 + move_tok);
			vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"drop", drop, 0}, {"handles", handles, VRT_SINGLE}, {"race", race, 0}, {"duel", duel, 0}, {"shapes", shapes, 0})
