// C23: ref<> frees each object once, after its last use.  C24: atomic_ref<> is a linearizable cell
#include "h.h"
#include <asyncpp/ref.h>
#include <optional>
using namespace h;
using asyncpp::atomic_ref;
using asyncpp::ref;
namespace {
	const int MAXN = 64, NH = 6;
	struct reg { // what the library did to the objects
		bool alive[MAXN];
		int destroyed[MAXN];
		void* addr[MAXN];
		std::function<void(int)> on_destroy;
	};
	reg* g;
	template<class C>
	struct node : asyncpp::intrusive_refcount<node<C>, C> {
		using base = asyncpp::intrusive_refcount<node<C>, C>;
		int id;
		tracked t;
		ref<node> next;
		bool is_derived;
		explicit node(int id, bool d = false) : id(id), t(id), is_derived(d) {
			vrt_ignore i;
			g->alive[id] = true;
			g->addr[id] = this;
		}
		virtual ~node() {
			CHECK(t.get() == id, "object damaged");
			{
				vrt_ignore i;
				CHECK(g->alive[id], "object %d destroyed twice", id);
				g->alive[id] = false;
				g->destroyed[id]++;
			}
			if (g->on_destroy) g->on_destroy(id);
		}
		size_t uses() const { return this->use_count(); }
	};
	template<class C>
	struct derived : node<C> {
		tracked extra;
		explicit derived(int id) : node<C>(id, true), extra(id) {}
	};
	// a handle's life in one thread, checked against counts computed from the model after every step
	template<class C>
	void handles() {
		using N = node<C>;
		using D = derived<C>;
		reset_globals();
		reg rg{};
		g = &rg;
		{
			std::optional<ref<N>> h[NH];
			int m[NH]; // object id; -1: empty; -2: no handle
			int nxt[MAXN], raw[MAXN];
			bool want[MAXN] = {};
			bool dying_handle[NH] = {};
			int nobj = 0, expect_dead = -1;
			(void)expect_dead;
			for (auto& x : m) x = -2;
			for (int i = 0; i < MAXN; i++) nxt[i] = -1, raw[i] = 0;
			rg.on_destroy = [&](int id) {
				for (int i = 0; i < NH; i++)
					if (h[i] && !dying_handle[i]) CHECK(h[i]->get() != rg.addr[id], "object %d destroyed while handle %d still refers to it", id, i);
			};
			auto N_ = [&](int id) { return static_cast<N*>(rg.addr[id]); };
			auto count = [&](int id) {
				int c = raw[id];
				for (int x : m) c += x == id;
				for (int i = 0; i < nobj; i++) c += want[i] && nxt[i] == id;
				return c;
			};
			auto sweep = [&]() { // apply deaths to the model
				for (bool again = true; again;) {
					again = false;
					for (int i = 0; i < nobj; i++)
						if (want[i] && count(i) == 0) {
							want[i] = false;
							nxt[i] = -1;
							again = true;
						}
				}
			};
			auto verify = [&](const char* what) {
				sweep();
				for (int i = 0; i < nobj; i++) {
					CHECK(rg.alive[i] == want[i], "after %s: object %d with %d reference(s) is %s", what, i, count(i), rg.alive[i] ? "still alive" : "destroyed");
					if (want[i]) {
						CHECK((int)N_(i)->uses() == count(i), "after %s: object %d has use count %d, %d reference(s) exist", what, i, (int)N_(i)->uses(), count(i));
						CHECK(N_(i)->t.get() == i, "object damaged");
						CHECK((N_(i)->next ? N_(i)->next->id : -1) == nxt[i], "after %s: link of object %d refers to the wrong object", what, i);
					}
				}
				for (int i = 0; i < NH; i++)
					if (h[i]) {
						N* p = m[i] >= 0 ? N_(m[i]) : nullptr;
						CHECK(h[i]->get() == p, "after %s: handle %d refers to the wrong object", what, i);
						CHECK(static_cast<bool>(*h[i]) == (p != nullptr) && !*h[i] == (p == nullptr), "wrong bool");
						if (p) CHECK(&**h[i] == p && (*h[i])->id == m[i], "wrong dereference");
					}
			};
			auto fresh = [&]() -> N* {
				int id = nobj++;
				want[id] = true;
				return coin(3) ? new D(id) : new N(id);
			};
			for (int i = 0; i < NH; i++) {
				if (coin(4)) continue;
				h[i].emplace();
				m[i] = -1;
				if (coin(3)) continue;
				N* p = fresh();
				h[i]->reset(p);
				m[i] = p->id;
			}
			for (int i = 1; i < NH; i++) // some chains to begin with
				if (m[i] > 0 && coin() && m[i - 1] >= 0 && m[i - 1] < m[i]) {
					(*h[i])->next = *h[i - 1];
					nxt[m[i]] = m[i - 1];
				}
			int steps = 20 + (int)rnd(40);
			for (int s = 0; s < steps && nobj < MAXN - 2; s++) {
				int i = (int)rnd(NH), j = (int)rnd(NH), op = (int)rnd(20);
				const char* what = "";
				bool has_i = h[i].has_value(), has_j = h[j].has_value();
				auto kill = [&](int k) {
					dying_handle[k] = true;
					h[k].reset();
					dying_handle[k] = false;
					m[k] = -2;
				};
				switch (op) {
				case 0:
					what = "construct";
					kill(i);
					if (coin(3)) {
						h[i].emplace();
						m[i] = -1;
					} else {
						N* p = fresh();
						if (coin()) h[i].emplace(p);
						else {
							raw[p->id]++;
							refcounted_add_ref(p);
							h[i].emplace(p, asyncpp::adopt_ref);
							raw[p->id]--;
						}
						m[i] = p->id;
					}
					break;
				case 1:
					what = "make_ref";
					if (!has_i) break;
					{
						int id = nobj++;
						want[id] = true;
						if (coin()) *h[i] = asyncpp::make_ref<N>(id);
						else *h[i] = asyncpp::static_ref_cast<N>(asyncpp::make_ref<D>(id));
						m[i] = id;
					}
					break;
				case 2:
					what = "copy construct";
					if (i == j || !has_j) break;
					kill(i);
					h[i].emplace(std::as_const(*h[j]));
					m[i] = m[j];
					break;
				case 3:
					what = "move construct";
					if (i == j || !has_j) break;
					kill(i);
					h[i].emplace(std::move(*h[j]));
					m[i] = m[j];
					m[j] = -1;
					break;
				case 4:
					what = "copy assign";
					if (!has_i || !has_j) break;
					*h[i] = std::as_const(*h[j]);
					m[i] = m[j];
					break;
				case 5:
					what = "move assign";
					if (!has_i || !has_j) break;
					*h[i] = std::move(*h[j]);
					if (i != j) {
						m[i] = m[j];
						m[j] = -1;
					}
					break;
				case 6:
				case 7:
				case 8:
					what = "assign from an object reachable through the old pointee";
					if (!has_i || m[i] < 0) break;
					{
						int n = nxt[m[i]], old = m[i];
						switch (rnd(4)) {
						case 0: *h[i] = (*h[i])->next; break;
						case 1:
							*h[i] = std::move((*h[i])->next);
							nxt[old] = -1;
							break;
						case 2: h[i]->reset((*h[i])->next.get()); break;
						case 3: *h[i] = ref<N>((*h[i])->next.get()); break;
						}
						m[i] = n;
					}
					break;
				case 9:
					what = "reset to the own pointee";
					if (!has_i || m[i] < 0) break;
					if (coin()) h[i]->reset(h[i]->get());
					else *h[i] = h[i]->get();
					break;
				case 10:
					what = "reset";
					if (!has_i) break;
					if (coin()) h[i]->reset();
					else h[i]->reset(nullptr);
					m[i] = -1;
					break;
				case 11:
					what = "release";
					if (!has_i || m[i] < 0) break;
					{
						N* p = h[i]->release();
						CHECK(p == N_(m[i]), "release() returned the wrong pointer");
						raw[m[i]]++;
						m[i] = -1;
					}
					break;
				case 12:
				case 13:
					what = "adopt";
					if (!has_i) break;
					for (int k = 0; k < nobj; k++)
						if (want[k] && raw[k]) {
							if (coin(4)) refcounted_remove_ref(N_(k));
							else if (coin()) {
								h[i]->reset(N_(k), asyncpp::adopt_ref);
								m[i] = k;
							} else {
								*h[i] = ref<N>(N_(k), asyncpp::adopt_ref);
								m[i] = k;
							}
							raw[k]--;
							break;
						}
					break;
				case 14:
					what = "swap";
					if (!has_i || !has_j) break;
					std::swap(*h[i], *h[j]);
					std::swap(m[i], m[j]);
					break;
				case 15:
				case 16:
					what = "link";
					if (!has_i || !has_j || m[i] < 0) break;
					if (m[j] >= m[i]) break; // no cycles
					{
						int oi = m[i];
						if (coin()) {
							(*h[i])->next = *h[j];
							nxt[oi] = m[j];
						} else {
							(*h[i])->next = std::move(*h[j]);
							nxt[oi] = m[j];
							m[j] = -1;
						}
					}
					break;
				case 17:
					what = "destroy";
					if (has_i) kill(i);
					break;
				case 18: {
					what = "cast";
					if (!has_i || !has_j) break;
					bool der = m[j] >= 0 && N_(m[j])->is_derived;
					bool mv = coin();
					switch (rnd(3)) {
					case 0: { // to derived and back
						ref<D> d = mv ? asyncpp::dynamic_ref_cast<D>(std::move(*h[j])) : asyncpp::dynamic_ref_cast<D>(*h[j]);
						CHECK(!!d == der, "dynamic_ref_cast %s", d ? "succeeded on another type" : "failed");
						if (der && mv) CHECK(!*h[j], "handle not emptied by a successful move cast");
						if (!der) {
							verify("dynamic_ref_cast");
							break;
						}
						if (mv) {
							*h[j] = asyncpp::static_ref_cast<N>(std::move(d));
							CHECK(!d, "handle not emptied by a move cast");
						} else {
							*h[i] = asyncpp::static_ref_cast<N>(d);
							m[i] = m[j];
						}
						break;
					}
					case 1: {
						if (!der) break;
						if (mv) {
							auto d = asyncpp::static_ref_cast<D>(std::move(*h[j]));
							*h[i] = asyncpp::static_ref_cast<N>(d);
							*h[j] = nullptr;
							int o = m[j];
							m[j] = -1;
							m[i] = o;
							if (i == j) m[i] = -1;
						} else {
							auto d = asyncpp::static_ref_cast<D>(*h[j]);
							CHECK(d->extra.get() == m[j], "static_ref_cast");
						}
						break;
					}
					case 2: {
						auto c = mv ? asyncpp::const_ref_cast<const N>(std::move(*h[j])) : asyncpp::const_ref_cast<const N>(*h[j]);
						auto b = mv ? asyncpp::const_ref_cast<N>(std::move(c)) : asyncpp::const_ref_cast<N>(c);
						*h[i] = b;
						int o = m[j];
						if (mv) m[j] = -1;
						m[i] = o;
						break;
					}
					}
					break;
				}
				case 19:
					what = "compare";
					if (!has_i || !has_j) break;
					{
						bool eq = m[i] == m[j];
						N* pj = h[j]->get();
						CHECK((*h[i] == *h[j]) == eq && (*h[i] != *h[j]) == !eq && (*h[i] == pj) == eq && (pj == *h[i]) == eq && (*h[i] != pj) == !eq && (pj != *h[i]) == !eq, "comparison wrong");
						CHECK((std::hash<ref<N>>{}(*h[i]) == std::hash<ref<N>>{}(*h[j])) == eq || !eq, "equal handles hash differently");
						CHECK((*h[i] < *h[j]) == std::less<N*>{}(h[i]->get(), pj), "ordering wrong");
					}
					break;
				}
				verify(what);
				vrt_sig(op * 100 + i * 10 + j);
			}
			for (int k = 0; k < nobj; k++)
				while (want[k] && raw[k]) {
					refcounted_remove_ref(N_(k));
					raw[k]--;
					verify("dropping a raw reference");
				}
			for (int i = 0; i < NH; i++) {
				dying_handle[i] = true;
				h[i].reset();
				m[i] = -2;
				verify("destroy");
			}
			for (int k = 0; k < nobj; k++) CHECK(rg.destroyed[k] == 1, "object %d destroyed %d times", k, rg.destroyed[k]);
			vrt_count("objects", nobj);
			vrt_ignore ig;
			rg.on_destroy = nullptr;
		}
		vrt_nontrivial();
		check_quiescent();
	}
	void handles_safe() { handles<asyncpp::thread_safe_refcount>(); }
	void handles_unsafe() { handles<asyncpp::thread_unsafe_refcount>(); }

	// ---------------- shared by threads
	struct obj : asyncpp::intrusive_refcount<obj> {
		int id;
		data init;
		data by[4]; // written by each thread before it drops its reference
		mon<int> wrote[4];
		explicit obj(int id) : id(id) { init.write(id * 3L); }
		~obj() {
			{
				vrt_ignore i;
				CHECK(g->alive[id], "object %d destroyed twice", id);
				g->alive[id] = false;
				g->destroyed[id]++;
			}
			CHECK(init.read() == id * 3L, "object damaged");
			for (int t = 0; t < 4; t++) CHECK(by[t].read() == wrote[t].get(), "destructor does not see what a thread wrote before it dropped its reference");
		}
		void use(int t) {
			CHECK(init.read() == id * 3L, "object not visible");
			by[t].write(wrote[t].get() + 1);
			wrote[t].add(1);
		}
		size_t uses() const { return use_count(); }
	};
	ref<obj> mk(int id) {
		{
			vrt_ignore i;
			g->alive[id] = true;
		}
		return asyncpp::make_ref<obj>(id);
	}
	void shared() {
		reset_globals();
		reg rg{};
		g = &rg;
		{
			int nt = 2 + (int)rnd(3), no = 1 + (int)rnd(2);
			std::vector<std::vector<ref<obj>>> own(nt);
			{
				std::vector<ref<obj>> first;
				for (int k = 0; k < no; k++) first.push_back(mk(k));
				for (auto& o : own)
					for (auto& f : first) o.push_back(f);
			}
			bool keep = coin(4);
			ref<obj> mine = keep ? own[0][0] : ref<obj>();
			parallel(nt, [&](int t) {
				auto& o = own[t];
				for (int k = (int)rnd(4); k > 0; k--) {
					size_t a = rnd(o.size()), b = rnd(o.size());
					if (!o[a]) continue;
					switch (rnd(6)) {
					case 0: o.push_back(o[a]); break;
					case 1: {
						auto c = o[a];
						c->use(t);
						break;
					}
					case 2: o[a] = o[b]; break;
					case 3: o[a] = std::move(o[b]); break;
					case 4: o[a].reset(); break;
					case 5: std::swap(o[a], o[b]); break;
					}
				}
				for (auto& r : o) {
					if (r) {
						CHECK(r->uses() >= 1, "use count is zero while held");
						r->use(t);
					}
					r.reset();
				}
			});
			if (mine) {
				CHECK(mine->uses() == 1 && rg.alive[0], "use count is %zu, one reference exists", mine->uses());
				for (int k = 1; k < no; k++) CHECK(!rg.alive[k], "object without references still alive");
			}
			mine.reset();
			for (int k = 0; k < no; k++) CHECK(rg.destroyed[k] == 1, "object %d destroyed %d times", k, rg.destroyed[k]);
			vrt_count("objects", no);
		}
		vrt_nontrivial();
		check_quiescent();
	}

	// ---------------- atomic_ref
	enum { LOAD, STORE, XCHG, RESET, RELEASE, BOOL, NOTBOOL, EQ, HASH, CP_LOAD, CP_STORE, MV_TAKE, MV_STORE, NK };
	const char* const kn[NK] = {"load", "store", "exchange", "reset", "release", "bool", "not", "equals", "hash", "copy.load", "copy.store", "move.take", "move.store"};
	const int NA = 2;
	struct model {
		int cell[NA] = {};
		std::map<int, int> tmp; // copies under way: op number -> value
		bool apply(const op& o) {
			int& c = cell[o.kind % NA];
			switch (o.kind / NA) {
			case LOAD: return o.r == c;
			case STORE: c = (int)o.a; return true;
			case XCHG:
				if (o.done && o.r != c) return false;
				c = (int)o.a;
				return true;
			case RESET: c = 0; return true;
			case RELEASE:
				if (o.r != c) return false;
				c = 0;
				return true;
			case BOOL: return o.r == (c != 0);
			case NOTBOOL: return o.r == (c == 0);
			case EQ: return o.r == (c == o.a);
			case HASH: return o.r == 1 || c != o.a; // equal pointers hash alike
			case CP_LOAD: tmp[(int)o.b] = c; return true;
			case MV_TAKE:
				tmp[(int)o.b] = c;
				c = 0;
				return true;
			case CP_STORE:
			case MV_STORE: {
				auto it = tmp.find((int)o.b);
				if (it == tmp.end()) return false;
				c = it->second;
				tmp.erase(it);
				return true;
			}
			}
			return false;
		}
		u64 key() const {
			u64 k = 5;
			for (int c : cell) k = hmix(k, c);
			for (auto& t : tmp) k = hmix(hmix(k, t.first), t.second);
			return k;
		}
	};
	void cells(int ncells) {
		reset_globals();
		reg rg{};
		g = &rg;
		{
			history hist;
			std::optional<atomic_ref<obj>> a[NA];
			mon<int> nid(1), ncopy(1);
			std::vector<ref<obj>> known; // kept by the main thread: used in comparisons
			model init;
			for (int i = 0; i < ncells; i++) {
				if (coin()) a[i].emplace();
				else {
					int id = nid.add(1);
					a[i].emplace(mk(id));
					init.cell[i] = id;
				}
			}
			int knownid = 0;
			if (coin(3)) {
				knownid = nid.add(1);
				known.push_back(mk(knownid));
			}
			// always refers to known[0]; comparisons of a cell with it are comparisons with a constant, even while other threads read it
			std::optional<atomic_ref<obj>> fixed;
			if (!known.empty()) fixed.emplace(known[0]);
			bool copies = coin(4);
			int nt = 2 + (int)rnd(2);
			std::vector<int> len(nt);
			for (auto& l : len) l = 2 + (int)rnd(4);
			auto K = [](int kind, int c) { return kind * NA + c; };
			parallel(nt, [&](int t) {
				ref<obj> held;
				for (int k = 0; k < len[t]; k++) {
					int c = (int)rnd(ncells), c2 = (int)rnd(ncells);
					auto newv = [&]() -> std::pair<ref<obj>, int> {
						if (held && coin(3)) return {held, held->id};
						if (!known.empty() && coin(3)) return {known[0], knownid};
						int id = nid.add(1);
						auto r = mk(id);
						r->use(t);
						return {r, id};
					};
					switch (copies && !coin(4) ? 12 + rnd(2) : rnd(14)) {
					case 0:
					case 1:
					case 2: {
						int o = hist.begin(K(LOAD, c));
						ref<obj> r = coin() ? a[c]->load() : a[c]->operator->();
						hist.end(o, r ? r->id : 0);
						if (r) {
							CHECK(r->init.read() == r->id * 3L, "loaded object not visible");
							CHECK(r->uses() >= 1, "loaded object without a reference");
						}
						if (coin()) held = std::move(r);
						break;
					}
					case 3:
					case 4: {
						auto v = newv();
						int o = hist.begin(K(STORE, c), v.second);
						switch (rnd(3)) {
						case 0: a[c]->store(v.first); break;
						case 1: *a[c] = v.first; break;
						case 2:
							*a[c] = std::move(v.first);
							CHECK(!v.first, "handle not emptied by move assignment to an atomic_ref");
							break;
						}
						hist.end(o);
						break;
					}
					case 5:
					case 6:
					case 7: {
						auto v = newv();
						int o = hist.begin(K(XCHG, c), v.second);
						ref<obj> r = a[c]->exchange(std::move(v.first));
						hist.end(o, r ? r->id : 0);
						if (r) CHECK(r->init.read() == r->id * 3L, "exchanged object not visible");
						if (coin()) held = r;
						break;
					}
					case 8: {
						int o = hist.begin(K(RESET, c));
						a[c]->reset();
						hist.end(o);
						break;
					}
					case 9: {
						int o = hist.begin(K(RELEASE, c));
						obj* p = a[c]->release();
						int id = p ? p->id : 0;
						hist.end(o, id);
						ref<obj> r(p, asyncpp::adopt_ref);
						if (r) CHECK(r->init.read() == id * 3L, "released object not visible");
						break;
					}
					case 10: {
						if (coin()) {
							int o = hist.begin(K(BOOL, c));
							bool b = static_cast<bool>(*a[c]);
							hist.end(o, b);
						} else {
							int o = hist.begin(K(NOTBOOL, c));
							bool b = !*a[c];
							hist.end(o, b);
						}
						break;
					}
					case 11: {
						if (known.empty()) break;
						if (coin(4)) {
							auto r = fixed->load();
							CHECK(r.get() == known[0].get(), "constant cell loaded something else");
							break;
						}
						bool hs = coin(4);
						int o = hist.begin(K(hs ? HASH : EQ, c), knownid);
						const obj* p = known[0].get();
						const auto &x = *a[c], &f = *fixed;
						bool b;
						if (hs) b = std::hash<atomic_ref<obj>>{}(x) == std::hash<atomic_ref<obj>>{}(f);
						else
							switch (rnd(11)) {
							case 0: b = x == p; break;
							case 1: b = p == x; break;
							case 2: b = !(x != p); break;
							case 3: b = !(p != x); break;
							case 4: b = std::is_eq(x <=> p); break;
							case 5: b = std::is_eq(p <=> x); break;
							case 6: b = x == f; break;
							case 7: b = f == x; break;
							case 8: b = !(x != f); break;
							case 9: b = !(f != x); break;
							default: b = std::is_eq(x <=> f); break;
							}
						hist.end(o, b);
						break;
					}
					case 12: {
						if (c == c2) {
							auto& x = *a[c];
							if (coin()) {
								x = std::as_const(*a[c2]); // self assignment: no effect
								break;
							}
						}
						int n = ncopy.add(1);
						int o1 = hist.begin(K(CP_LOAD, c2), 0, n), o2 = hist.begin(K(CP_STORE, c), 0, n);
						switch (c == c2 ? 1 + rnd(2) : rnd(3)) {
						case 0: *a[c] = std::as_const(*a[c2]); break;
						case 1: a[c]->store(std::as_const(*a[c2])); break;
						case 2: {
							ref<obj> r = a[c]->exchange(std::as_const(*a[c2]));
							if (r) CHECK(r->init.read() == r->id * 3L, "exchanged object not visible");
							break;
						}
						}
						hist.end(o1);
						hist.end(o2);
						break;
					}
					case 13: {
						int n = ncopy.add(1);
						int o1 = hist.begin(K(MV_TAKE, c2), 0, n), o2 = hist.begin(K(MV_STORE, c), 0, n);
						*a[c] = std::move(*a[c2]);
						hist.end(o1);
						hist.end(o2);
						break;
					}
					}
					if (held) {
						CHECK(held->init.read() == held->id * 3L, "held object damaged");
						CHECK(rg.alive[held->id], "held object destroyed");
					}
				}
			});
			for (int i = 0; i < ncells; i++) {
				int o = hist.begin(K(LOAD, i));
				auto r = a[i]->load();
				hist.end(o, r ? r->id : 0);
			}
			int lin = linearizable(hist.ops, init);
			if (lin == 0) {
				static char buf[NK * NA][24];
				static const char* nm[NK * NA];
				for (int i = 0; i < NK * NA; i++) {
					snprintf(buf[i], sizeof buf[i], "a%d.%s", i % NA, kn[i / NA]);
					nm[i] = buf[i];
				}
				hist.dump(nm);
				CHECK(false, "history is not linearizable: initially %d, %d", init.cell[0], init.cell[1]);
			}
			vrt_count(lin == 1 ? "histories_linearizable" : "histories_undecided", 1);
			vrt_count("operations", hist.ops.size());
			hist.signature();
			if (hist.overlapped()) vrt_nontrivial();
			for (int i = 0; i < ncells; i++) a[i].reset();
			fixed.reset();
			known.clear();
			int n = nid.get();
			for (int k = 1; k < n; k++)
				if (rg.destroyed[k] != 1) CHECK(false, "object %d destroyed %d times after the last reference went", k, rg.destroyed[k]);
		}
		check_quiescent();
	}
	void cell() { cells(1); }
	void two_cells() { cells(2); }
	// publication through the cell only
	void publish() {
		reset_globals();
		reg rg{};
		g = &rg;
		{
			atomic_ref<obj> a;
			int nt = 2 + (int)rnd(3), writers = 1 + (int)rnd(nt - 1);
			parallel(nt, [&](int t) {
				if (t < writers) {
					for (int k = 0; k < 2; k++) {
						auto r = mk(1 + t * 2 + k);
						r->use(t);
						if (coin()) a.store(std::move(r));
						else {
							auto old = a.exchange(std::move(r));
							if (old) old->use(t);
						}
					}
				} else {
					for (int k = 0; k < 3; k++) {
						auto r = a.load();
						if (r) r->use(t);
						if (coin()) std::this_thread::yield();
					}
				}
			});
			a.reset();
			for (int k = 1; k <= writers * 2; k++) CHECK(rg.destroyed[k] == 1, "object %d destroyed %d times after the last reference went", k, rg.destroyed[k]);
			vrt_count("objects", writers * 2);
		}
		vrt_nontrivial();
		check_quiescent();
	}
	// handles of a type with its own counting functions, whose pointer may collide with the lock bit
	struct opaque;
	int* counts() {
		static int c[4];
		return c;
	}
	int slot_of(const opaque* p) { return (int)(reinterpret_cast<uintptr_t>(p) & 3) + 0; }
	void refcounted_add_ref(opaque* p) noexcept {
		if (p) counts()[slot_of(p)]++;
	}
	void refcounted_remove_ref(opaque* p) noexcept {
		if (p) counts()[slot_of(p)]--;
	}
	void collide() {
		reset_globals();
		for (int i = 0; i < 4; i++) counts()[i] = 0;
		{
			auto good = reinterpret_cast<opaque*>(uintptr_t{0x1000} + 1), bad = reinterpret_cast<opaque*>((uintptr_t{1} << 63) + 0x1000 + 2);
			atomic_ref<opaque> a{ref<opaque>(good)};
			CHECK(counts()[1] == 1, "count is %d", counts()[1]);
			int thrown = 0;
			for (int k = (int)rnd(4) + 1; k > 0; k--) {
				int before = thrown;
				try {
					switch (rnd(5)) {
					case 0: a.store(ref<opaque>(bad)); break;
					case 1: a.exchange(ref<opaque>(bad)); break;
					case 2: {
						ref<opaque> b(bad);
						a = b;
						break;
					}
					case 3: a = ref<opaque>(bad); break;
					case 4: {
						atomic_ref<opaque> x{ref<opaque>(bad)};
						break;
					}
					}
				} catch (std::logic_error&) { thrown++; }
				CHECK(thrown == before + 1, "a pointer that uses the lock bit was accepted");
				CHECK(counts()[2] == 0, "%d reference(s) leaked when a pointer was refused", counts()[2]);
				CHECK(counts()[1] == 1 && a.load().get() == good, "the cell changed although the new pointer was refused");
			}
			vrt_sig(thrown);
			vrt_count("refused", thrown);
		}
		CHECK(counts()[1] == 0, "count is %d at the end", counts()[1]);
		vrt_nontrivial();
	}

	// A type of the user's own with free functions as hooks: called for objects only, never for an empty handle.
	struct hooked {
		int id, n = 0;
	};
	void refcounted_add_ref(hooked* p) {
		CHECK(p, "refcounted_add_ref called without an object");
		p->n++;
	}
	void refcounted_remove_ref(hooked* p) {
		CHECK(p, "refcounted_remove_ref called without an object");
		CHECK(p->n > 0, "more references dropped than taken");
		p->n--;
	}
	// random programs over both kinds of handle with a custom type; ordering, comparison and hash of the cells
	void hooks() {
		reset_globals();
		hooked o[3] = {{0}, {1}, {2}};
		{
			const int N = 3;
			ref<hooked> h[N];
			atomic_ref<hooked> a[N];
			int mh[N], ma[N];
			for (int i = 0; i < N; i++) mh[i] = ma[i] = -1;
			auto P = [&](int i) { return i < 0 ? nullptr : &o[i]; };
			int len = 5 + (int)rnd(20);
			for (int k = 0; k < len; k++) {
				int i = (int)rnd(N), j = (int)rnd(N), v = (int)rnd(4) - 1, op = (int)rnd(24);
				switch (op) {
				case 0: h[i] = ref<hooked>(P(v)), mh[i] = v; break;
				case 1: h[i].reset(P(v)), mh[i] = v; break;
				case 2: h[i] = h[j], mh[i] = mh[j]; break;
				case 3:
					h[i] = std::move(h[j]);
					if (i != j) mh[i] = mh[j], mh[j] = -1;
					else mh[i] = h[i] ? mh[i] : -1;
					break;
				case 4: h[i].reset(), mh[i] = -1; break;
				case 5:
					if (auto p = h[i].release()) p->n--;
					mh[i] = -1;
					break;
				case 6: {
					ref<hooked> t(h[i]), u(std::move(t)), w(P(v));
					CHECK(u.get() == P(mh[i]) && !t && w.get() == P(v), "copy or move gave the wrong object");
					break;
				}
				case 7: h[i] = P(v), mh[i] = v; break;
				case 8: a[i].store(h[j]), ma[i] = mh[j]; break;
				case 9: a[i].store(a[j]), ma[i] = ma[j]; break;
				case 10: {
					auto old = a[i].exchange(h[j]);
					CHECK(old.get() == P(ma[i]), "exchange returned the wrong object");
					ma[i] = mh[j];
					break;
				}
				case 11: a[i] = h[j], ma[i] = mh[j]; break;
				case 12: a[i] = std::as_const(a[j]), ma[i] = ma[j]; break;
				case 13:
					if (i == j) break;
					a[i] = std::move(a[j]), ma[i] = ma[j], ma[j] = -1;
					break;
				case 14: a[i].reset(), ma[i] = -1; break;
				case 15:
					if (auto p = a[i].release()) p->n--;
					ma[i] = -1;
					break;
				case 16: h[i] = a[j].load(), mh[i] = ma[j]; break;
				case 17: {
					atomic_ref<hooked> t(a[i].load()), u(h[j]), w(P(v));
					CHECK(t.load().get() == P(ma[i]) && u.load().get() == P(mh[j]) && w.load().get() == P(v), "a new cell holds the wrong object");
					atomic_ref<hooked> x;
					x = std::move(t);
					CHECK(!t && x.load().get() == P(ma[i]), "a cell assigned by moving holds the wrong object");
					break;
				}
				case 18: {
					hooked *p = P(ma[i]), *q = P(ma[j]);
					bool eq = p == q;
					auto w = std::compare_three_way{}(p, q);
					const auto &x = a[i], &y = a[j];
					const hooked *cp = p, *cq = q;
					CHECK((x == y) == eq && (x != y) == !eq && (x == cq) == eq && (x != cq) == !eq && (cp == y) == eq && (cp != y) == !eq, "cells compare wrongly");
					CHECK((x <=> y) == w && (x <=> cq) == w && (cp <=> y) == w, "cells are ordered wrongly");
					CHECK(!eq || std::hash<atomic_ref<hooked>>{}(x) == std::hash<atomic_ref<hooked>>{}(y), "equal cells hash differently");
					CHECK((bool)x == (p != nullptr) && !x == (p == nullptr), "wrong bool");
					if (p) CHECK(x->id == ma[i], "cell dereferences to the wrong object");
					break;
				}
				case 19: {
					hooked *p = P(mh[i]), *q = P(mh[j]);
					bool eq = p == q;
					auto w = std::compare_three_way{}(p, q);
					const auto &x = h[i], &y = h[j];
					const hooked *cp = p, *cq = q;
					CHECK((x == y) == eq && (x != y) == !eq && (x == cq) == eq && (x != cq) == !eq && (cp == y) == eq && (cp != y) == !eq, "handles compare wrongly");
					CHECK((x <=> y) == w && (x <=> cq) == w && (cp <=> y) == w, "handles are ordered wrongly");
					break;
				}
				case 20:
					if (v >= 0) o[v].n++;
					h[i].reset(P(v), asyncpp::adopt_ref);
					mh[i] = v;
					break;
				case 21: {
					if (v >= 0) o[v].n++;
					ref<hooked> t(P(v), asyncpp::adopt_ref);
					std::swap(t, h[i]);
					mh[i] = v;
					break;
				}
				case 22: std::swap(h[i], h[j]), std::swap(mh[i], mh[j]); break;
				default: break;
				}
				int want[3] = {};
				for (int x = 0; x < N; x++) {
					CHECK(h[x].get() == P(mh[x]), "after operation %d: handle %d refers to the wrong object", op, x);
					auto l = a[x].load();
					CHECK(l.get() == P(ma[x]), "after operation %d: cell %d refers to the wrong object", op, x);
					if (mh[x] >= 0) want[mh[x]]++;
					if (ma[x] >= 0) want[ma[x]]++;
				}
				for (int x = 0; x < 3; x++) CHECK(o[x].n == want[x], "after operation %d: %d references to object %d, count %d", op, want[x], x, o[x].n);
				vrt_sig(op * 16 + i * 4 + j);
			}
		}
		for (auto& x : o) CHECK(x.n == 0, "%d references leaked", x.n);
		vrt_nontrivial();
	}
} // namespace
SCENARIOS({"handles_safe", handles_safe, VRT_SINGLE}, {"handles_unsafe", handles_unsafe, VRT_SINGLE}, {"shared", shared, 0}, {"cell", cell, 0}, {"two_cells", two_cells, VRT_NOSTALE}, {"publish", publish, 0}, {"collide", collide, VRT_SINGLE}, {"hooks", hooks, VRT_SINGLE})
