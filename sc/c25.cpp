// C25: signals call the right subscribers in order under reentrancy.  C26: signals and signal_manager are thread-safe
#include "h.h"
#include <asyncpp/signal.h>
#include <array>
#include <optional>
using namespace h;
namespace {
	// ------------------------------------------------------------------ one thread
	const int NSIG = 3, NSC = 3;
	struct sub_info {
		int sig = -1; // where it is connected; -1: nowhere
		asyncpp::signal_handle hdl;
		int live = 0; // callback objects
	};
	struct life { // counts the callback objects of a subscriber
		sub_info* s;
		explicit life(sub_info* x) : s(x) { s->live++; }
		life(const life& o) : s(o.s) { s->live++; }
		~life() { s->live--; }
	};
	struct frame {
		int sig, number;
		std::vector<int> snap;
		size_t pos = 0;
		int calls = 0;
	};
	struct refused { // trivially destructible
		int number;
	};
	template<class Traits>
	struct world {
		using S = asyncpp::signal<void(int, const tracked&), Traits>;
		std::optional<S> s[NSIG];
		std::vector<int> order[NSIG]; // model: connected subscribers in order
		std::vector<std::unique_ptr<sub_info>> subs;
		std::optional<asyncpp::scoped_signal_handle> sc[NSC];
		int msc[NSC];
		std::vector<frame> frames;
		int emissions = 0, budget, depth = 0;
		bool throwing = false;
		struct fn {
			world* w;
			tracked t;
			life l;
			void operator()(int n, const tracked& x) const { w->called(t.get(), n, x); }
		};
		world() {
			for (auto& m : msc) m = -1;
		}
		void drop(int id) { // model: no longer connected
			vrt_ignore i;
			if (id < 0) return;
			int q = subs[id]->sig;
			if (q < 0) return;
			auto& o = order[q];
			o.erase(std::find(o.begin(), o.end(), id));
			subs[id]->sig = -1;
		}
		void called(int id, int n, const tracked& x) {
			CHECK(!frames.empty(), "subscriber called outside of an emission");
			size_t fi = frames.size() - 1;
			{
				vrt_ignore i;
				frame& f = frames[fi];
				CHECK(n == f.number && x.get() == n * 2, "wrong arguments");
				advance(f, id);
				f.calls++;
				f.pos++;
			}
			if (depth < 3) {
				depth++;
				for (int k = (int)rnd(3); k > 0; k--) act(true);
				depth--;
			}
			if (throwing && coin(10)) throw refused{frames[fi].number};
		}
		bool connected(int id, int sig) { return subs[id]->sig == sig; }
		void advance(frame& f, int id) { // everything skipped has to be removed
			for (; f.pos < f.snap.size() && f.snap[f.pos] != id; f.pos++)
				if (connected(f.snap[f.pos], f.sig)) CHECK(false, "emission %d skipped subscriber %d%s", f.number, f.snap[f.pos], id >= 0 ? "" : " at its end");
			if (id >= 0) {
				if (f.pos == f.snap.size()) {
					bool was = std::find(f.snap.begin(), f.snap.end(), id) != f.snap.end();
					CHECK(false, "subscriber %d called %s", id, was ? "out of order or twice" : "by an emission that began before it was added");
				}
				CHECK(connected(id, f.sig), "subscriber %d called after it was removed", id);
			}
		}
		void emit(int q) {
			if (!s[q] || frames.size() >= 4) return;
			int n = emissions++;
			{
				vrt_ignore i;
				frames.push_back({q, n, order[q]});
			}
			tracked arg(n * 2);
			size_t r;
			try {
				r = (*s[q])(n, arg);
			} catch (const refused& e) { // the rest of this emission is off, nothing else
				CHECK(throwing && e.number == n, "emission %d threw the exception of %d", n, e.number);
				vrt_ignore i;
				frames.pop_back();
				vrt_count("thrown", 1);
				return;
			}
			vrt_ignore i;
			frame& f = frames.back();
			advance(f, -1);
			CHECK((int)r == f.calls, "emission returned %zu after %d calls", r, f.calls);
			vrt_count("calls", f.calls);
			vrt_count("emissions", 1);
			frames.pop_back();
		}
		int add(int q) {
			if (!s[q] || subs.size() > 40) return -1;
			int id;
			{
				vrt_ignore i;
				id = (int)subs.size();
				subs.push_back(std::make_unique<sub_info>());
			}
			bool front = coin(3);
			auto put = [&](auto&& f) -> asyncpp::signal_handle { return front ? s[q]->prepend(std::forward<decltype(f)>(f)) : coin() ? s[q]->append(std::forward<decltype(f)>(f)) : *s[q] += std::forward<decltype(f)>(f); };
			asyncpp::signal_handle hd;
			switch (rnd(5)) { // the signal keeps a callable of its own
			case 0: {
				fn f{this, tracked(id), life(subs[id].get())};
				hd = put(f);
				CHECK(f.t.get() == id, "callable passed as lvalue was moved from");
				f.t = tracked(-5);
				break;
			}
			case 1: {
				auto f = std::make_unique<const fn>(fn{this, tracked(id), life(subs[id].get())});
				hd = put(*f);
				CHECK(f->t.get() == id, "callable passed as lvalue was moved from");
				break;
			}
			case 2: {
				std::function<void(int, const tracked&)> f = fn{this, tracked(id), life(subs[id].get())};
				hd = put(f);
				f = nullptr;
				break;
			}
			default: hd = put(fn{this, tracked(id), life(subs[id].get())});
			}
			subs[id]->hdl = hd;
			vrt_ignore i;
			subs[id]->sig = q;
			order[q].insert(front ? order[q].begin() : order[q].end(), id);
			return id;
		}
		void check_all() {
			for (int q = 0; q < NSIG; q++) {
				if (!s[q]) continue;
				CHECK(s[q]->size() == order[q].size() && s[q]->empty() == order[q].empty(), "size() is %zu, %zu subscribers are connected", s[q]->size(), order[q].size());
				for (size_t id = 0; id < subs.size(); id++)
					CHECK(s[q]->owns_handle(subs[id]->hdl) == (subs[id]->sig == q), "owns_handle() is wrong for subscriber %zu", id);
				CHECK(!s[q]->owns_handle(asyncpp::signal_handle()), "owns an empty handle");
			}
			for (size_t id = 0; id < subs.size(); id++) {
				auto& h = subs[id]->hdl;
				CHECK(h.valid() == (subs[id]->sig >= 0) && static_cast<bool>(h) == h.valid() && !h == !h.valid(), "valid() is %d for a subscriber that is %s", (int)h.valid(), subs[id]->sig >= 0 ? "connected" : "not connected");
			}
			for (int k = 0; k < NSC; k++)
				if (sc[k]) {
					CHECK(sc[k]->valid() == (msc[k] >= 0 && subs[msc[k]]->sig >= 0), "scoped handle: valid() is %d", (int)sc[k]->valid());
					CHECK(static_cast<bool>(*sc[k]) == sc[k]->valid() && !*sc[k] == !sc[k]->valid(), "scoped handle: operator bool and ! contradict valid()");
					const auto& csc = *sc[k];
					const asyncpp::signal_handle& hd = csc;
					for (size_t id = 0; id < subs.size(); id++)
						if ((int)id == msc[k] || subs[id]->hdl != asyncpp::signal_handle()) // removed ones may have been given up
							CHECK((hd == subs[id]->hdl) == ((int)id == msc[k]) || subs[id]->sig < 0, "scoped handle of subscriber %d compared to subscriber %zu", msc[k], id);
					for (int j = 0; j < NSC; j++) {
						if (!sc[j]) continue;
						const asyncpp::signal_handle& hj = *sc[j];
						CHECK((csc == *sc[j]) == (hd == hj) && (csc != *sc[j]) == !(hd == hj) && ((csc <=> *sc[j]) == 0) == (hd == hj), "comparison of scoped handles");
						if (k != j && sc[k]->valid() && sc[j]->valid()) CHECK(csc != *sc[j], "scoped handles of different subscribers are equal");
						CHECK(((hd <=> hj) < 0) == ((hj <=> hd) > 0) && ((csc <=> *sc[j]) < 0) == ((hd <=> hj) < 0), "order of handles");
					}
				}
		}
		void collect() { // emissions and released handles leave no removed callback behind
			bool th = std::exchange(throwing, false);
			for (int q = 0; q < NSIG; q++) emit(q);
			throwing = th;
			for (auto& x : sc)
				if (x && !x->valid()) x->release();
			int keep = (int)rnd(3); // a handle that is kept keeps its own callback at most
			for (auto& x : subs)
				if (x->sig < 0 && (keep == 0 || coin(keep + 1))) x->hdl = asyncpp::signal_handle();
			for (size_t id = 0; id < subs.size(); id++)
				CHECK(subs[id]->live == (subs[id]->sig >= 0) || (subs[id]->live == 1 && subs[id]->hdl != asyncpp::signal_handle()), "%d callbacks of subscriber %zu exist, it is %s", subs[id]->live, id, subs[id]->sig >= 0 ? "connected" : "not connected and has no handle");
			vrt_count("collected", 1);
		}
		void act(bool inside) {
			if (budget-- < 0) return;
			int q = (int)rnd(NSIG), q2 = (int)rnd(NSIG), id = subs.empty() ? -1 : (int)rnd(subs.size()), k = (int)rnd(NSC), k2 = (int)rnd(NSC);
			if (inside && !frames.empty() && !coin(3)) q = frames.back().sig;
			if (inside && id >= 0 && !frames.empty() && coin()) { // prefer subscribers near the running one
				auto& f = frames.back();
				if (!f.snap.empty()) id = f.snap[(f.pos + rnd(3) + f.snap.size() - 2) % f.snap.size()];
			}
			switch (rnd(inside ? 13 : 18)) {
			case 0:
			case 1:
			case 2: add(q); break;
			case 3:
			case 4: {
				if (id < 0 || !s[q]) break;
				if (coin() && subs[id]->sig >= 0) q = subs[id]->sig;
				if (!s[q]) break;
				bool want = subs[id]->sig == q;
				bool has = static_cast<bool>(subs[id]->hdl);
				if (coin(4)) {
					*s[q] -= subs[id]->hdl;
					if (want) drop(id);
				} else {
					bool r = s[q]->remove(subs[id]->hdl);
					CHECK(r == want, "remove() returned %d for a subscriber that is %s (handle valid before: %d)", (int)r, want ? "connected" : subs[id]->sig >= 0 ? "connected to another signal" : "not connected", (int)has);
					if (want) drop(id);
				}
				break;
			}
			case 5:
				if (id < 0) break;
				{
					asyncpp::signal_handle copy = subs[id]->hdl;
					CHECK(copy == subs[id]->hdl && !(copy != subs[id]->hdl), "handle differs from its copy");
					copy.disconnect();
					CHECK(!copy.valid() && copy == asyncpp::signal_handle(), "handle not empty after disconnect()");
					drop(id);
				}
				break;
			case 6: emit(q); break;
			case 7:
				if (!inside) emit(q);
				break;
			case 8: check_all(); break;
			case 9: // scoped handles
				if (sc[k]) {
					drop(msc[k]);
					sc[k].reset();
					msc[k] = -1;
				} else {
					int n = add(q);
					if (n < 0) break;
					sc[k].emplace(subs[n]->hdl);
					msc[k] = n;
				}
				break;
			case 10:
				if (!sc[k]) break;
				if (coin()) {
					sc[k]->disconnect();
					drop(msc[k]);
				} else sc[k]->release();
				msc[k] = -1;
				break;
			case 11: { // rebind a scoped handle
				if (!sc[k]) break;
				int n = add(q);
				if (n < 0) break;
				*sc[k] = subs[n]->hdl;
				drop(msc[k]);
				msc[k] = n;
				break;
			}
			case 12: // hand over
				if (!sc[k] || k == k2) break;
				if (sc[k2]) {
					*sc[k2] = std::move(*sc[k]);
					drop(msc[k2]);
				} else sc[k2].emplace(std::move(*sc[k]));
				msc[k2] = msc[k];
				msc[k] = -1;
				break;
			case 13: // only outside of emissions from here on
				if (!s[q]) s[q].emplace();
				break;
			case 14:
				if (!s[q] || !coin(2)) break;
				s[q].reset();
				lose(q);
				break;
			case 15:
				if (!s[q]) break;
				if (q == q2) {
					auto& self = *s[q];
					*s[q] = std::move(self);
					break;
				}
				if (s[q2]) {
					*s[q2] = std::move(*s[q]);
					lose(q2);
				} else s[q2].emplace(std::move(*s[q]));
				take(q2, q);
				break;
			case 16: { // a subscription of another kind of signal
				asyncpp::signal<void(), Traits> other;
				auto h = other += []() {};
				if (s[q]) CHECK(!s[q]->owns_handle(h) && !s[q]->remove(h), "signal owns the handle of another signal");
				CHECK(other.owns_handle(h) && other() == 1 && h.valid(), "subscriber lost");
				break;
			}
			case 17:
				if (s[q]) {
					S tmp(std::move(*s[q]));
					CHECK(s[q]->empty(), "moved from signal not empty");
					if (coin()) s[q] = std::move(tmp);
					else {
						s[q].reset();
						s[q].emplace(std::move(tmp));
					}
				}
				break;
			}
		}
		void lose(int q) {
			vrt_ignore i;
			while (!order[q].empty()) drop(order[q].front());
		}
		void take(int dst, int src) {
			vrt_ignore i;
			for (int id : order[src]) subs[id]->sig = dst;
			order[dst] = order[src];
			order[src].clear();
		}
	};
	template<class Traits>
	void reentrant() {
		reset_globals();
		{
			world<Traits> w;
			for (auto& x : w.s) x.emplace();
			w.budget = 40 + (int)rnd(80);
			w.throwing = coin();
			for (int k = (int)rnd(6); k > 0; k--) w.add(0);
			int steps = 10 + (int)rnd(25);
			for (int k = 0; k < steps; k++) {
				w.act(false);
				vrt_sig(w.subs.size() * 100 + w.emissions);
				if (coin(4)) w.check_all();
				if (coin(12)) {
					int d = w.depth;
					w.depth = 10;
					w.collect();
					w.depth = d;
				}
			}
			w.check_all();
			w.budget = 0;
			w.depth = 10;
			w.collect();
			w.check_all();
			vrt_count("subscribers", w.subs.size());
			if (w.emissions > 3) vrt_nontrivial();
			if (coin()) {
				for (auto& x : w.s) x.reset();
				for (int q = 0; q < NSIG; q++) w.lose(q);
				w.check_all();
			}
			for (auto& x : w.sc) x.reset();
			vrt_ignore ig;
			for (auto& o : w.order) std::vector<int>().swap(o);
			std::vector<frame>().swap(w.frames);
		}
		check_quiescent();
	}
	void reentrant_st() { reentrant<asyncpp::signal_traits_st>(); }
	void reentrant_mt() { reentrant<asyncpp::signal_traits_mt>(); }
	// ------------------------------------------------------------------ several threads
	struct csub {
		moment add_call, add_ret, rem_call, rem_ret;
		bool added = false, removing = false, removed_ok = false, disconnected = false, front = false;
		int event = 0, removers = 0, trues = 0;
		asyncpp::signal_handle hdl;
		std::atomic<bool> pub{false}; // hdl may be used by others
		data init;
		std::vector<int> calls; // emissions that called it
	};
	struct cemit {
		moment call, ret;
		int event = 0;
		size_t result = 0;
		bool done = false;
		std::vector<int> seq;
	};
	struct cworld {
		std::vector<std::unique_ptr<csub>> subs;
		std::vector<std::unique_ptr<cemit>> em;
		std::function<void(int sub, int emission)> inside;
		cworld() {
			vrt_ignore i;
			subs.reserve(256);
			em.reserve(256);
		}
		~cworld() {
			vrt_ignore i;
			inside = nullptr;
		}
		int new_sub(int ev, bool front) {
			vrt_ignore i;
			subs.push_back(std::make_unique<csub>());
			subs.back()->event = ev;
			subs.back()->front = front;
			return (int)subs.size() - 1;
		}
		int new_em(int ev) {
			vrt_ignore i;
			em.push_back(std::make_unique<cemit>());
			em.back()->event = ev;
			return (int)em.size() - 1;
		}
		csub* sub(int i) {
			vrt_ignore ig;
			return subs[i].get();
		}
		cemit* emi(int i) {
			vrt_ignore ig;
			return em[i].get();
		}
		struct fn {
			cworld* w;
			tracked t;
			void operator()(int e) const {
				int id = t.get();
				csub* s = w->sub(id);
				CHECK(s->init.read() == id + 5L, "subscriber sees stale data");
				{
					vrt_ignore i;
					cemit* m = w->em[e].get();
					CHECK(m->event == s->event, "subscriber of event %d called by event %d", s->event, m->event);
					CHECK(!m->done, "subscriber called after the emission returned");
					CHECK(s->add_call.set, "subscriber called before it was added");
					if (std::find(s->calls.begin(), s->calls.end(), e) != s->calls.end()) CHECK(false, "subscriber %d called twice by one emission", id);
					s->calls.push_back(e);
					m->seq.push_back(id);
				}
				if (w->inside) w->inside(id, e);
			}
		};
		template<class F>
		int add(int ev, bool front, F&& doit) {
			int id = new_sub(ev, front);
			csub* s = sub(id);
			s->init.write(id + 5L);
			{
				vrt_ignore i;
				s->add_call = moment::now();
			}
			s->hdl = doit(fn{this, tracked(id)});
			CHECK(s->removing || s->hdl.valid(), "handle of a fresh subscriber is not valid");
			{
				vrt_ignore i;
				s->added = true;
				s->add_ret = moment::now();
			}
			s->pub.store(true, std::memory_order_release);
			return id;
		}
		template<class F>
		int emit(int ev, F&& doit) {
			int e = new_em(ev);
			cemit* m = emi(e);
			{
				vrt_ignore i;
				m->call = moment::now();
			}
			size_t r = doit(e);
			vrt_ignore i;
			m->ret = moment::now();
			m->result = r;
			m->done = true;
			CHECK(r == m->seq.size(), "emission returned %zu after %zu calls", r, m->seq.size());
			return e;
		}
		template<class F>
		void remove(int id, bool disc, F&& doit) { // by any thread that got the handle
			csub* s = sub(id);
			{
				vrt_ignore i;
				if (!s->rem_call.set) s->rem_call = moment::now();
				s->removing = true;
				if (disc) s->disconnected = true;
				else s->removers++;
			}
			bool r = doit(s->hdl);
			vrt_ignore i;
			if (!disc && r) s->trues++;
			if (!s->rem_ret.set) s->rem_ret = moment::now();
		}
		void verdict() {
			vrt_ignore ig;
			size_t calls = 0;
			for (size_t k = 0; k < subs.size(); k++) {
				csub& s = *subs[k];
				calls += s.calls.size();
				for (size_t e = 0; e < em.size(); e++) {
					cemit& m = *em[e];
					if (m.event != s.event || !m.done) continue;
					bool was = std::find(s.calls.begin(), s.calls.end(), (int)e) != s.calls.end();
					bool connected = s.added && before(s.add_ret, m.call) && (!s.rem_call.set || before(m.ret, s.rem_call));
					if (connected && !was) CHECK(false, "subscriber %zu, connected throughout emission %zu, was not called by it", k, e);
					if (was && s.rem_ret.set && before(s.rem_ret, m.call)) CHECK(false, "subscriber %zu called by emission %zu that began after its removal returned", k, e);
					if (was && before(m.ret, s.add_call)) CHECK(false, "subscriber called before it was added");
				}
				CHECK(s.trues <= 1, "remove() returned true %d times for one subscriber", s.trues);
				if (s.removers && !s.disconnected) CHECK(s.trues == 1, "%d remove() calls for one subscriber and none returned true", s.removers);
			}
			// order
			for (auto& m : em)
				for (size_t a = 0; a < m->seq.size(); a++)
					for (size_t b = a + 1; b < m->seq.size(); b++) {
						csub &x = *subs[m->seq[a]], &y = *subs[m->seq[b]]; // x called before y
						bool bad = false;
						if (x.added && y.added) {
							if (!x.front && !y.front) bad = before(y.add_ret, x.add_call);
							if (x.front && y.front) bad = before(x.add_ret, y.add_call);
							if (!x.front && y.front) bad = true;
						}
						if (bad) CHECK(false, "subscribers %d and %d called out of order", m->seq[a], m->seq[b]);
					}
			vrt_count("calls", calls);
			vrt_count("emissions", em.size());
			vrt_count("subscribers", subs.size());
		}
		int remaining(int ev) {
			vrt_ignore i;
			int n = 0;
			for (auto& s : subs) n += s->added && !s->rem_call.set && (ev < 0 || s->event == ev);
			return n;
		}
		bool usable(int id) { return sub(id)->pub.load(std::memory_order_acquire); }
		int pick(int ev) { // a subscriber whose handle this thread may use, or -1
			int id = -1;
			{
				vrt_ignore i;
				std::vector<int> c;
				for (size_t k = 0; k < subs.size(); k++)
					if ((ev < 0 || subs[k]->event == ev) && subs[k]->added) c.push_back((int)k);
				if (!c.empty()) id = c[rnd(c.size())];
			}
			return id >= 0 && usable(id) ? id : -1;
		}
	};
	void threads(bool nested) {
		reset_globals();
		{
			cworld w;
			using S = asyncpp::signal<void(int)>;
			std::optional<S> sig;
			sig.emplace();
			auto add = [&](bool front) { return w.add(0, front, [&](cworld::fn f) { return front ? sig->prepend(std::move(f)) : sig->append(std::move(f)); }); };
			auto emit = [&]() { return w.emit(0, [&](int e) { return (*sig)(e); }); };
			auto rem = [&](int id) {
				if (id < 0) return;
				bool disc = coin(3);
				w.remove(id, disc, [&](asyncpp::signal_handle& h) {
					if (!disc) return sig->remove(h);
					asyncpp::signal_handle copy = h;
					copy.disconnect();
					return true;
				});
			};
			for (int k = (int)rnd(4); k > 0; k--) add(coin(3));
			int nt = 2 + (int)rnd(2);
			std::vector<int> len(nt);
			for (auto& l : len) l = 2 + (int)rnd(4);
			mon<int> budget(8);
			if (nested)
				w.inside = [&](int id, int) {
					if (budget.add(-1) <= 0) return;
					switch (rnd(5)) {
					case 0: add(coin()); break;
					case 1: rem(w.pick(0)); break;
					case 2: {
						if (w.usable(id)) rem(id);
						break;
					}
					case 3: emit(); break;
					case 4: (void)sig->size(); break;
					}
				};
			parallel(nt, [&](int t) {
					for (int k = 0; k < len[t]; k++) {
						switch (rnd(9)) {
						case 0:
						case 1:
						case 2: emit(); break;
						case 3:
						case 4: add(coin(3)); break;
						case 5:
						case 6: rem(w.pick(0)); break;
						case 7: {
							int id = w.pick(0);
							if (id < 0) break;
							csub* s = w.sub(id);
							moment call = moment::now();
							bool o = sig->owns_handle(s->hdl);
							moment ret = moment::now();
							vrt_ignore i;
							if (o && s->rem_ret.set && before(s->rem_ret, call)) CHECK(false, "owns_handle() is true after removal");
							if (!o && (!s->rem_call.set || before(ret, s->rem_call))) CHECK(false, "owns_handle() is false for a connected subscriber");
							break;
						}
						case 8: (void)sig->size(); break;
						}
					}
			});
			w.inside = nullptr;
			CHECK((int)sig->size() == w.remaining(-1), "size() is %zu, %d subscribers are connected", sig->size(), w.remaining(-1));
			for (size_t k = 0; k < w.subs.size(); k++) {
				bool live = !w.subs[k]->rem_call.set;
				CHECK(w.subs[k]->hdl.valid() == live && sig->owns_handle(w.subs[k]->hdl) == live, "handle of a %s subscriber: valid %d", live ? "connected" : "removed", (int)w.subs[k]->hdl.valid());
			}
			int e = emit();
			CHECK((int)w.emi(e)->seq.size() == w.remaining(-1), "the last emission called %zu subscribers, %d are connected", w.emi(e)->seq.size(), w.remaining(-1));
			w.verdict();
			vrt_sig(w.subs.size() * 100 + w.em.size());
			vrt_ignore i;
			for (auto& s : w.subs) for (int c : s->calls) vrt_sig(c);
			bool ov = false;
			for (auto& a : w.em)
				for (auto& s : w.subs)
					if (s->added && a->call.step < s->add_call.step && a->ret.step > s->add_call.step) ov = true;
			if (ov || w.em.size() > 2) vrt_nontrivial();
		}
		check_quiescent();
	}
	void plain() { threads(false); }
	void nested() { threads(true); }
	// ------------------------------------------------------------------ signal_manager
	void manager() {
		reset_globals();
		{
			cworld w;
			using M = asyncpp::signal_manager<int, void(int)>;
			std::optional<M> mgr;
			mgr.emplace();
			const int NE = 3;
			auto add = [&](int ev) {
				bool front = coin(3);
				return w.add(ev, front, [&](cworld::fn f) { return front ? mgr->prepend(ev, std::move(f)) : mgr->append(ev, std::move(f)); });
			};
			auto emit = [&](int ev) { return w.emit(ev, [&](int e) { return coin() ? (*mgr)(ev, e) : mgr->invoke(ev, e); }); };
			auto rem = [&](int id) {
				if (id < 0) return;
				int ev = w.sub(id)->event;
				if (coin(5)) CHECK(!mgr->remove((ev + 1) % NE, w.sub(id)->hdl), "removed through another event");
				bool disc = coin(4);
				w.remove(id, disc, [&](asyncpp::signal_handle& h) {
					if (!disc) return mgr->remove(ev, h);
					asyncpp::signal_handle copy = h;
					copy.disconnect();
					return true;
				});
			};
			for (int k = (int)rnd(4); k > 0; k--) add((int)rnd(NE));
			int nt = 2 + (int)rnd(2);
			std::vector<int> len(nt);
			for (auto& l : len) l = 2 + (int)rnd(4);
			mon<int> budget(coin() ? 6 : 0);
			auto step = [&](int self) {
				switch (rnd(self < 0 ? 11 : 7)) {
				case 0: add((int)rnd(NE)); break;
				case 1: rem(w.pick(-1)); break;
				case 2:
					if (self >= 0) {
						if (w.usable(self)) rem(self);
					} else emit((int)rnd(NE));
					break;
				case 3: emit((int)rnd(NE)); break;
				case 4: mgr->shrink_to_fit(); break;
				case 5: {
					int id = w.pick(-1);
					if (id < 0) break;
					csub* s = w.sub(id);
					moment call = moment::now();
					bool o = mgr->owns_handle(s->event, s->hdl);
					moment ret = moment::now();
					CHECK(!mgr->owns_handle((s->event + 1) % NE, s->hdl), "another event owns the handle");
					vrt_ignore i;
					if (o && s->rem_ret.set && before(s->rem_ret, call)) CHECK(false, "owns_handle() is true after removal");
					if (!o && (!s->rem_call.set || before(ret, s->rem_call))) CHECK(false, "owns_handle() is false for a connected subscriber");
					break;
				}
				case 6:
				case 7: add(7 + (int)rnd(20)); break; // new events: the map grows
				case 8:
				case 9: {
					int id = w.pick(-1);
					emit(id < 0 ? 0 : w.sub(id)->event);
					break;
				}
				case 10: rem(w.pick(-1)); break;
				}
			};
			w.inside = [&](int id, int) {
				if (budget.add(-1) <= 0) return;
				step(id);
			};
			parallel(nt, [&](int t) {
				for (int k = 0; k < len[t]; k++) step(-1);
			});
			w.inside = nullptr;
			if (coin(4)) { // moved managers keep everything
				M other(std::move(*mgr));
				if (coin()) *mgr = std::move(other);
				else {
					mgr.reset();
					mgr.emplace(std::move(other));
				}
			}
			std::set<int> events;
			for (auto& s : w.subs) events.insert(s->event);
			for (int ev : events) {
				int e = emit(ev);
				CHECK((int)w.emi(e)->seq.size() == w.remaining(ev), "the last emission of event %d called %zu subscribers, %d are connected", ev, w.emi(e)->seq.size(), w.remaining(ev));
			}
			mgr->shrink_to_fit();
			for (size_t k = 0; k < w.subs.size(); k++) {
				bool live = !w.subs[k]->rem_call.set;
				CHECK(w.subs[k]->hdl.valid() == live && mgr->owns_handle(w.subs[k]->event, w.subs[k]->hdl) == live, "handle of a %s subscriber: valid %d", live ? "connected" : "removed", (int)w.subs[k]->hdl.valid());
			}
			for (int ev : events) {
				int e = emit(ev);
				CHECK((int)w.emi(e)->seq.size() == w.remaining(ev), "after shrink_to_fit() event %d called %zu subscribers, %d are connected", ev, w.emi(e)->seq.size(), w.remaining(ev));
			}
			w.verdict();
			vrt_sig(w.subs.size() * 100 + w.em.size());
			vrt_ignore i;
			for (auto& s : w.subs) for (int c : s->calls) vrt_sig(c);
			if (w.em.size() > 3) vrt_nontrivial();
		}
		check_quiescent();
	}
	// ------------------------------------------------------------------ callbacks whose destructors use the signal again
	struct dying {
		std::function<void()>* f;
		explicit dying(std::function<void()>* x) : f(x) {}
		dying(dying&& o) noexcept : f(std::exchange(o.f, nullptr)) {}
		dying(const dying&) = delete;
		~dying() {
			if (f && *f) (*f)();
		}
	};
	template<class Make, class Ops>
	void destructors(Make make, Ops ops) {
		reset_globals();
		{
			auto obj = make();
			mon<int> added(0), destroyed(0), budget(6);
			std::function<void()> on_destroy;
			struct fn {
				dying d;
				tracked t;
				mon<int>* calls;
				void operator()(int) const {
					CHECK(t.get() == 7, "wrong callback state");
					calls->add(1);
				}
			};
			mon<int> calls(0);
			auto connect = [&](int ev) {
				added.add(1);
				return ops.add(*obj, ev, coin(3), fn{dying(&on_destroy), tracked(7), &calls});
			};
			on_destroy = [&]() {
				destroyed.add(1);
				if (budget.add(-1) <= 0) return;
				int ev = (int)rnd(2);
				switch (rnd(5)) {
				case 0: (void)ops.size(*obj, ev); break;
				case 1: ops.emit(*obj, ev); break;
				case 2: (void)connect(ev); break;
				case 3: {
					auto h = connect(ev);
					(void)ops.remove(*obj, ev, h);
					break;
				}
				case 4: (void)ops.remove(*obj, ev, asyncpp::signal_handle()); break;
				}
			};
			int nt = 1 + (int)rnd(3), len = 2 + (int)rnd(4);
			parallel(nt, [&](int) {
				std::vector<std::pair<int, asyncpp::signal_handle>> mine;
				for (int k = 0; k < len; k++) {
					int ev = (int)rnd(2);
					switch (rnd(6)) {
					case 0:
					case 1: mine.emplace_back(ev, connect(ev)); break;
					case 2: ops.emit(*obj, ev); break;
					case 3:
						if (mine.empty()) break;
						mine.back().second.disconnect();
						mine.pop_back();
						break;
					case 4:
						if (mine.empty()) break;
						CHECK(ops.remove(*obj, mine.back().first, mine.back().second), "connected subscriber not removed");
						mine.pop_back();
						break;
					case 5: ops.shrink(*obj); break;
					}
				}
				for (auto& m : mine) CHECK(ops.remove(*obj, m.first, m.second), "connected subscriber not removed");
			});
			vrt_sig(added.get() * 100 + calls.get());
			if (coin()) { // replaced while callbacks are connected
				budget.set(4);
				for (int k = (int)rnd(4); k >= 0; k--) (void)connect((int)rnd(2));
				auto other = make();
				ops.replace(*obj, *other);
				if (coin()) ops.replace(*obj, *other);
			}
			budget.set(-1);
			if (coin()) {
				ops.emit(*obj, 0);
				ops.emit(*obj, 1);
				ops.shrink(*obj);
			}
			obj.reset();
			CHECK(added.get() == destroyed.get(), "%d callbacks added, %d destroyed", added.get(), destroyed.get());
			vrt_count("destroyed", destroyed.get());
			if (destroyed.get() > 2) vrt_nontrivial();
			vrt_ignore i;
			on_destroy = nullptr;
		}
		check_quiescent();
	}
	struct sig_ops {
		using T = std::vector<std::unique_ptr<asyncpp::signal<void(int)>>>;
		template<class F>
		auto add(T& t, int ev, bool front, F f) { return front ? t[ev]->prepend(std::move(f)) : t[ev]->append(std::move(f)); }
		bool remove(T& t, int ev, const asyncpp::signal_handle& h) { return t[ev]->remove(h); }
		void emit(T& t, int ev) { (*t[ev])(1); }
		size_t size(T& t, int ev) { return t[ev]->size(); }
		void shrink(T&) {}
		void replace(T& t, T& u) {
			for (size_t k = 0; k < t.size(); k++) *t[k] = std::move(*u[k]);
		}
	};
	struct mgr_ops {
		using T = asyncpp::signal_manager<int, void(int)>;
		template<class F>
		auto add(T& t, int ev, bool front, F f) { return front ? t.prepend(ev, std::move(f)) : t.append(ev, std::move(f)); }
		bool remove(T& t, int ev, const asyncpp::signal_handle& h) { return t.remove(ev, h); }
		void emit(T& t, int ev) { t(ev, 1); }
		size_t size(T& t, int ev) { return t.owns_handle(ev, asyncpp::signal_handle()); }
		void shrink(T& t) { t.shrink_to_fit(); }
		void replace(T& t, T& u) { t = std::move(u); }
	};
	void dtor_signal() {
		destructors(
			[]() {
				auto p = std::make_unique<sig_ops::T>();
				for (int k = 0; k < 2; k++) p->push_back(std::make_unique<asyncpp::signal<void(int)>>());
				return p;
			},
			sig_ops{});
	}
	void dtor_manager() {
		destructors([]() { return std::make_unique<mgr_ops::T>(); }, mgr_ops{});
	}
	// ------------------------------------------------------------------ moved while others use it
	void moves_signal() {
		reset_globals();
		{
			using S = asyncpp::signal<void(int)>;
			S a, b;
			mon<int> added(0), called(0);
			int nt = 1 + (int)rnd(2), nm = 1 + (int)rnd(3), len[2];
			for (auto& l : len) l = 1 + (int)rnd(4);
			bool both = coin();
			parallel(nt + 1, [&](int t) {
				if (t == nt) {
					for (int k = 0; k < nm; k++) {
						if (k % 2 == 0) {
							if (both) b = std::move(a);
							else {
								S tmp(std::move(a));
								a = std::move(tmp);
							}
						} else if (both) a = std::move(b);
					}
					return;
				}
				for (int k = 0; k < len[t]; k++) {
					bool viab = false;
					S& s = viab ? b : a;
					switch (rnd(4)) {
					case 0: (void)s.size(); break;
					case 1: (void)s.owns_handle(asyncpp::signal_handle()); break;
					default:
						added.add(1);
						auto f = [&, tr = tracked(3)](int) {
							CHECK(tr.get() == 3, "callback damaged");
							called.add(1);
						};
						coin() ? s.append(f) : s.prepend(f);
					}
				}
			});
			// assignment drops what the target had
			size_t left = a.size() + b.size();
			CHECK((int)left <= added.get(), "%zu subscribers of %d", left, added.get());
			size_t n = a(1) + b(1);
			CHECK((int)n == called.get() && n == left, "%zu calls reported, %d made, %zu subscribers", n, called.get(), left);
			vrt_sig(left);
			vrt_nontrivial();
		}
		check_quiescent();
	}
	void moves_manager() {
		reset_globals();
		{
			using M = asyncpp::signal_manager<int, void(int)>;
			M a, b;
			mon<int> added(0), removed(0), called(0);
			int nt = 1 + (int)rnd(2), nm = 1 + (int)rnd(3), len[2];
			for (auto& l : len) l = 2 + (int)rnd(4);
			bool swap = coin();
			std::array<std::vector<std::pair<int, asyncpp::signal_handle>>, 2> hs;
			parallel(nt + 1, [&](int t) {
				if (t == nt) {
					for (int k = 0; k < nm; k++) {
						M tmp(std::move(a));
						if (swap) a = std::move(b);
						b = std::move(tmp);
						if (!swap) a = std::move(b);
					}
					return;
				}
				for (int k = 0; k < len[t]; k++) {
					int ev = (int)rnd(2);
					switch (rnd(5)) {
					case 0: a(ev, 1); break;
					case 1:
						if (!hs[t].empty()) {
							auto& p = hs[t].back();
							if (a.remove(p.first, p.second)) {
								removed.add(1);
								hs[t].pop_back();
							}
						}
						break;
					case 2: (void)a.shrink_to_fit(); break;
					default: {
						added.add(1);
						auto f = [&, tr = tracked(3)](int) {
							CHECK(tr.get() == 3, "callback damaged");
							called.add(1);
						};
						hs[t].emplace_back(ev, coin() ? a.append(ev, f) : a.prepend(ev, f));
					}
					}
				}
			});
			called.set(0);
			size_t n = a(0, 1) + a(1, 1) + b(0, 1) + b(1, 1);
			CHECK((int)n == called.get() && (int)n <= added.get() - removed.get(), "%zu calls reported, %d made, %d subscribers", n, called.get(), added.get() - removed.get());
			size_t valid = 0;
			for (auto& v : hs)
				for (auto& p : v) {
					bool own = a.owns_handle(p.first, p.second) || b.owns_handle(p.first, p.second);
					CHECK(own == p.second.valid(), "handle valid: %d, owned: %d", (int)p.second.valid(), (int)own);
					valid += p.second.valid();
				}
			CHECK(valid == n, "%zu handles are valid, %zu subscribers were called", valid, n);
			for (auto& v : hs) v.clear();
			vrt_sig(n);
			vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"reentrant_st", reentrant_st, VRT_SINGLE}, {"reentrant_mt", reentrant_mt, VRT_SINGLE}, {"plain", plain, 0}, {"nested", nested, 0}, {"manager", manager, 0}, {"dtor_signal", dtor_signal, 0},
	{"dtor_manager", dtor_manager, 0}, {"moves_signal", moves_signal, 0}, {"moves_manager", moves_manager, 0})
