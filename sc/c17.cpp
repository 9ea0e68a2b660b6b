// C17: task. C22: as_promise and launch
#include "hd.h"
#include <asyncpp/launch.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#include <future>
#include <optional>
#include <thread>
using namespace h;
namespace {
	const int MAXN = 60;
	struct world {
		struct node {
			int begun = 0, ended = 0, frames = 0, resumed = 0, awaited = 0, locals = 0;
			long out = 0; // >0 value, <0 exception
		};
		std::vector<node> n;
		std::vector<pump*> p;
		mon<int> moved, unstarted, exceptions, values, threads_changed;
		data eff[MAXN];
		world() {
			vrt_ignore i;
			n.reserve(MAXN);
			p.reserve(4);
		}
		~world() {
			vrt_ignore i;
			std::vector<node>().swap(n);
		}
		int make() {
			vrt_ignore i;
			if ((int)n.size() >= MAXN) return -1;
			n.push_back({});
			return (int)n.size() - 1;
		}
		pump* any() { return p.empty() ? nullptr : p[rnd(p.size())]; }
	};
	struct param { // one live object per frame
		world* w;
		int id;
		tracked t;
		bool active = true;
		param(world* ww, int i) : w(ww), id(i), t(i) {
			vrt_ignore ig;
			w->n[id].frames++;
		}
		param(param&& o) noexcept : w(o.w), id(o.id), t(std::move(o.t)), active(std::exchange(o.active, false)) {}
		~param() {
			vrt_ignore ig;
			if (active) {
				auto& x = w->n[id];
				CHECK(x.frames-- == 1, "frame of task %d destroyed twice", id);
				CHECK(x.begun == x.ended, "frame of task %d destroyed while it was suspended in its body", id);
				CHECK(!x.awaited || x.resumed, "frame of task %d destroyed before its awaiter was resumed", id);
			}
		}
	};
	struct local {
		world* w;
		int id;
		local(world* ww, int i) : w(ww), id(i) {
			vrt_ignore ig;
			w->n[id].locals++;
		}
		~local() {
			vrt_ignore ig;
			w->n[id].locals--;
		}
	};
	// result whose moves can be made to throw
	struct brittle {
		tracked t;
		int fuse;
		brittle(int v, int f) : t(v), fuse(f) {}
		brittle(brittle&& o) : t(o.t.val), fuse(o.fuse - 1) {
			if (o.fuse == 0) throw trivial_error{-o.t.val};
		}
	};
	void begin(world* w, int id) {
		vrt_ignore ig;
		auto& x = w->n[id];
		CHECK(x.awaited == 1, "body of task %d ran before it was awaited", id);
		CHECK(x.begun++ == 0, "body of task %d ran twice", id);
		CHECK(x.frames == 1, "body of task %d runs without its frame", id);
	}
	struct ender {
		world* w;
		int id;
		~ender() {
			vrt_ignore ig;
			CHECK(w->n[id].ended++ == 0, "task %d ended twice", id);
		}
	};
	template<class T>
	T make_value(int id) {
		if constexpr (std::is_same_v<T, tracked>) return tracked(id);
		else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(id);
		else if constexpr (std::is_same_v<T, brittle>) return brittle(id, 1 << 20);
		else if constexpr (!std::is_void_v<T>) return (T)id;
	}
	template<class T>
	int value_id(T& v) {
		if constexpr (std::is_same_v<T, tracked>) return v.get();
		else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return v ? *v : -1;
		else if constexpr (std::is_same_v<T, brittle>) return v.t.get();
		else return (int)v;
	}
	void awaiting(world* w, int id) {
		vrt_ignore ig;
		w->n[id].awaited++;
		CHECK(w->n[id].begun == 0, "body of task %d ran before it was awaited", id);
	}
	void resumed(world* w, int id) {
		vrt_ignore ig;
		auto& x = w->n[id];
		CHECK(x.resumed++ == 0, "awaiter of task %d resumed twice", id);
		CHECK(x.ended == 1 && x.begun == 1, "awaiter of task %d resumed although its body has not completed", id);
		CHECK(x.locals == 0, "awaiter of task %d resumed while locals of the body live", id);
	}
	asyncpp::task<> any_child(world* w, int depth);
	template<class T>
	asyncpp::task<T> body(world* w, param pa, int depth, int outcome) {
		int id = pa.id;
		begin(w, id);
		ender en{w, id};
		local l1{w, id};
		tracked tr(id * 7);
		int tid0 = vrt_tid();
		int steps = (int)rnd(4);
		for (int s = 0; s < steps; s++) {
			if (depth > 0 && coin()) {
				auto t = any_child(w, depth - 1);
				if (t) co_await t;
			} else if (auto* p = w->any())
				co_await hop{p};
			CHECK(pa.t.get() == id && tr.get() == id * 7, "frame of task %d damaged across a suspension", id);
		}
		if (tid0 != vrt_tid()) w->threads_changed.add(1);
		w->eff[id].write(id + 9);
		if (outcome == 1) throw trivial_error{id};
		if constexpr (std::is_same_v<T, brittle>) {
			if (outcome == 2) {
				brittle b(id, 0); // throws when it is moved into the result
				co_return b;
			}
		}
		if constexpr (std::is_copy_constructible_v<T> && !std::is_void_v<T>) switch (rnd(4)) {
			case 0: {
				const T v = make_value<T>(id);
				co_return v;
			}
			case 1: {
				T v = make_value<T>(id);
				co_return v;
			}
			case 2: {
				const T v = make_value<T>(id);
				const T& ref = v;
				co_return ref;
			}
			}
		if constexpr (!std::is_void_v<T>) co_return make_value<T>(id);
	}
	// checks what an await delivered
	template<class T, class Task>
	asyncpp::task<> check_await(world* w, Task t, int id, int outcome) {
		int got = 0, exc = 0;
		awaiting(w, id);
		try {
			if constexpr (std::is_void_v<T>) {
				co_await t;
				got = id;
			} else if (coin()) {
				T v = co_await t;
				got = value_id(v);
			} else {
				T v = co_await std::move(t);
				got = value_id(v);
			}
		} catch (trivial_error& e) { exc = e.v; }
		resumed(w, id);
		CHECK(w->eff[id].read() == id + 9, "effects of task %d not visible to its awaiter", id);
		if (outcome == 0) {
			CHECK(got == id && exc == 0, "task %d returned its value but the awaiter got value %d, exception %d", id, got, exc);
			w->values.add(1);
		} else {
			CHECK(got == 0 && exc == (outcome == 2 ? -id : id), "task %d threw but the awaiter got value %d, exception %d", id, got, exc);
			w->exceptions.add(1);
		}
	}
	template<class T>
	asyncpp::task<> child_of(world* w, int depth) {
		int id = w->make();
		if (id < 0) co_return;
		if (id == 0) id = w->make(); // ids start at 1
		int outcome = coin(4) ? 1 : 0;
		if (std::is_same_v<T, brittle> && coin(3)) outcome = 2;
		auto t = body<T>(w, param(w, id), depth, outcome);
		CHECK(t && !!t, "task with a coroutine claims to be empty");
		vrt_yield();
		switch (rnd(7)) {
		case 0: { // never awaited
			w->unstarted.add(1);
			if (coin()) {
				auto u = std::move(t);
				CHECK(!t && u, "move construction left the source engaged");
			}
			co_return;
		}
		case 1: { // moved before
			auto u = std::move(t);
			CHECK(!t && u, "move construction left the source engaged");
			w->moved.add(1);
			co_await check_await<T>(w, std::move(u), id, outcome);
			break;
		}
		case 2: { // assigned over an empty one
			asyncpp::task<T> u(nullptr);
			CHECK(!u, "empty task claims a coroutine");
			u = std::move(t);
			CHECK(u, "move assignment lost the task");
			w->moved.add(1);
			co_await check_await<T>(w, std::move(u), id, outcome);
			break;
		}
		case 3: { // assigned over an unstarted one
			int id2 = w->make();
			if (id2 >= 0) {
				auto u = body<T>(w, param(w, id2), 0, 0);
				u = std::move(t);
				w->moved.add(1);
				w->unstarted.add(1);
				co_await check_await<T>(w, std::move(u), id, outcome);
			} else
				co_await check_await<T>(w, std::move(t), id, outcome);
			break;
		}
		case 4: { // self move assignment
			auto& r = t;
			t = std::move(r);
			CHECK(t, "self move assignment lost the task");
			co_await check_await<T>(w, std::move(t), id, outcome);
			break;
		}
		default: co_await check_await<T>(w, std::move(t), id, outcome);
		}
	}
	asyncpp::task<> any_child(world* w, int depth) {
		switch (rnd(5)) {
		case 0: return child_of<int>(w, depth);
		case 1: return child_of<tracked>(w, depth);
		case 2: return child_of<std::unique_ptr<int>>(w, depth);
		case 3: return child_of<brittle>(w, depth);
		default: return child_of<void>(w, depth);
		}
	}
	co root(world* w, mon<int>* fin) {
		{
			int k = 1 + (int)rnd(4);
			for (int i = 0; i < k; i++) {
				auto t = any_child(w, 3);
				co_await t;
			}
		}
		fin->add(1);
	}
	void finish(world& w) {
		vrt_ignore ig;
		int run = 0;
		for (size_t i = 1; i < w.n.size(); i++) {
			auto& x = w.n[i];
			CHECK(x.frames == 0, "frame of task %zu never destroyed", i);
			CHECK(x.begun == x.awaited && x.ended == x.begun && x.resumed == x.awaited, "task %zu: awaited %d, begun %d, ended %d, awaiter resumed %d", i, x.awaited, x.begun, x.ended, x.resumed);
			run += x.begun;
		}
		vrt_count("tasks", w.n.size());
		vrt_count("ran", run);
		vrt_count("exceptions", w.exceptions.v);
		vrt_count("unstarted", w.unstarted.v);
		vrt_count("moved", w.moved.v);
		vrt_count("changed_thread", w.threads_changed.v);
		vrt_sig(w.n.size() * 1000 + run * 10 + w.exceptions.v);
		if (run > 1) vrt_nontrivial();
	}
	void tree() {
		reset_globals();
		{
			world w;
			w.make();
			std::optional<pump> pu[2];
			int np = (int)rnd(3);
			for (int i = 0; i < np; i++) {
				pu[i].emplace(1 + (int)rnd(2));
				w.p.push_back(&*pu[i]);
			}
			int nr = np ? 1 + (int)rnd(2) : 1;
			mon<int> fin;
			for (int i = 0; i < nr; i++) root(&w, &fin);
			for (int spin = 0; fin.get() != nr; spin++) {
				CHECK(spin < 3000, "a task tree never completed");
				vrt_sleep_ns(1000000);
			}
			for (int i = 0; i < np; i++) pu[i]->stop();
			finish(w);
		}
		check_quiescent();
	}
	// chains as deep as memory allows must not grow the stack
	asyncpp::task<long> chain(int depth, const void** lo, pump* p, tracked t) {
		const void* here = __builtin_frame_address(0);
		if (!*lo || here < *lo) *lo = here;
		if (depth == 0) {
			if (p) co_await hop{p};
			co_return 0;
		}
		long r = co_await chain(depth - 1, lo, p, tracked(depth));
		here = __builtin_frame_address(0);
		if (!p && here < *lo) *lo = here;
		CHECK(t.get() == depth + 1, "parameter damaged");
		co_return r + 1;
	}
	asyncpp::task<> loop_inline(int n, long* sum, const void** lo) {
		for (int i = 0; i < n; i++) {
			const void* x = nullptr;
			*sum += co_await chain(i % 3, &x, nullptr, tracked(i % 3 + 1));
			const void* here = __builtin_frame_address(0);
			if (!*lo || here < *lo) *lo = here;
		}
	}
	co run_chain(int depth, const void** lo, pump* p, mon<long>* out) {
		auto t = chain(depth, lo, p, tracked(depth + 1));
		out->set(-2);
		long r = co_await t;
		out->set(r);
	}
	co run_loop(int n, long* sum, const void** lo, mon<long>* out) {
		co_await loop_inline(n, sum, lo);
		out->set(1);
	}
	void deep() {
		reset_globals();
		int depth = 300 + (int)rnd(3000);
#ifdef __SANITIZE_ADDRESS__
		depth *= 10;
#endif
		const void* lo = nullptr;
		mon<long> out{-1};
		const char* top = (const char*)__builtin_frame_address(0);
		if (coin()) {
			std::optional<pump> p;
			if (coin()) p.emplace(1);
			run_chain(depth, &lo, p ? &*p : nullptr, &out);
			if (p) p->stop();
			CHECK(out.get() == depth, "chain of %d tasks delivered %ld", depth, out.get());
		} else {
			long sum = 0;
			run_loop(depth, &sum, &lo, &out);
			CHECK(out.get() == 1 && sum == (long)depth / 3 * 3 + (depth % 3 == 2 ? 1 : 0), "loop of %d inline awaits delivered %ld (%ld)", depth, sum, out.get());
		}
		long used = top - (const char*)lo;
		CHECK(used < 64 * 1024, "awaiting %d tasks in a chain used %ld bytes of stack", depth, used);
		vrt_count("deepest_ok", 1);
		vrt_sig(depth);
		vrt_nontrivial();
		check_quiescent();
	}
	// ---------------------------------------------------------------- C22
	struct probe { // shared with the awaitable
		mon<int> alive, started, resumed_n, destroyed_early;
		mon<int> done;
		data eff;
	};
	template<class R>
	struct aw { // copies are counted; the one that is awaited must live until await_resume
		probe* pr;
		pump* p;
		int hops, outcome;
		tracked t{31};
		bool suspended = false;
		aw(probe* q, pump* pp, int h, int o) : pr(q), p(pp), hops(h), outcome(o) {}
		aw(const aw& o) = default;
		aw(aw&& o) noexcept : pr(o.pr), p(o.p), hops(o.hops), outcome(o.outcome), t(std::move(o.t)), suspended(o.suspended) {}
		~aw() {
			if (suspended) pr->destroyed_early.add(1);
		}
		bool await_ready() {
			CHECK(t.get() == 31, "awaitable damaged");
			CHECK(pr->started.add(1) == 0, "awaitable awaited twice");
			return hops == 0 || !p;
		}
		void await_suspend(std::coroutine_handle<> hd) {
			suspended = true;
			go(hd, hops);
		}
		void go(std::coroutine_handle<> hd, int n) {
			p->push([this, hd, n]() mutable {
				CHECK(t.get() == 31, "awaitable destroyed or damaged before it completed");
				if (n > 1) go(hd, n - 1);
				else {
					suspended = false;
					pr->eff.write(55);
					hd.resume();
				}
			});
		}
		R await_resume() {
			CHECK(t.get() == 31, "awaitable damaged");
			CHECK(pr->resumed_n.add(1) == 0, "awaitable completed twice");
			if (hops == 0 || !p) pr->eff.write(55);
			pr->done.set(1);
			if (outcome == 1) throw trivial_error{9};
			if constexpr (std::is_same_v<R, tracked>) return tracked(42);
			else if constexpr (std::is_same_v<R, std::unique_ptr<int>>) return std::make_unique<int>(42);
			else if constexpr (std::is_same_v<R, data&>) return pr->eff;
			else if constexpr (!std::is_void_v<R>) return (R)42;
		}
	};
	template<class R>
	asyncpp::task<R> via_task(aw<R> a) {
		tracked l(5);
		if constexpr (std::is_void_v<R>) {
			co_await a;
			CHECK(l.get() == 5, "local damaged");
		} else {
			R v = co_await a;
			CHECK(l.get() == 5, "local damaged");
			co_return std::move(v);
		}
	}
	template<class R>
	struct wrapped { // only reachable through operator co_await
		aw<R> a;
		aw<R> operator co_await() { return a; }
	};
	template<class R>
	void get_and_check(std::future<R> f, probe& pr, int outcome, bool sync, bool inline_done) {
		CHECK(f.valid(), "invalid future");
		if (inline_done) CHECK(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future not ready although the awaitable completed synchronously");
		if (sync) {
			bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
			if (ready) CHECK(pr.done.get() == 1, "future ready before the awaitable completed");
		}
		bool thrown = false;
		try {
			if constexpr (std::is_void_v<R>) f.get();
			else if constexpr (std::is_same_v<R, data&>) {
				data& d = f.get();
				CHECK(&d == &pr.eff, "another object came back");
			} else {
				R v = f.get();
				if constexpr (std::is_same_v<R, tracked>) CHECK(v.get() == 42, "value altered");
				else if constexpr (std::is_same_v<R, std::unique_ptr<int>>) CHECK(v && *v == 42, "value altered");
				else CHECK(v == 42, "value altered");
			}
		} catch (trivial_error& e) {
			thrown = true;
			CHECK(e.v == 9, "exception altered");
		}
		CHECK(pr.done.get() == 1, "future ready before the awaitable completed");
		CHECK(thrown == (outcome == 1), "awaitable %s but the future %s", outcome ? "threw" : "returned", thrown ? "threw" : "returned");
		CHECK(pr.eff.read() == 55, "effects of the awaitable not visible to the waiter");
	}
	template<class R>
	void bridge_one(pump* p) {
		probe pr;
		int hops = p ? (int)rnd(3) : 0, outcome = coin(3), form = (int)rnd(5);
		bool inl = hops == 0;
		vrt_sig(hops * 16 + outcome * 8 + form);
		std::future<R> f;
		switch (form) {
		case 0: f = asyncpp::as_promise(aw<R>(&pr, p, hops, outcome)); break;
		case 1: {
			aw<R> a(&pr, p, hops, outcome);
			f = asyncpp::as_promise(a);
			break;
		}
		case 2: {
			aw<R> a(&pr, p, hops, outcome);
			f = asyncpp::as_promise<R>(a);
			break;
		}
		case 3:
			if constexpr (!std::is_reference_v<R>) {
				f = asyncpp::as_promise(via_task<R>(aw<R>(&pr, p, hops, outcome)));
				break;
			}
			[[fallthrough]];
		case 4: f = asyncpp::as_promise(wrapped<R>{aw<R>(&pr, p, hops, outcome)}); break;
		}
		CHECK(pr.started.get() == 1, "as_promise did not start the awaitable");
		if (coin() && p) {
			std::thread th([&]() { get_and_check<R>(std::move(f), pr, outcome, coin(), inl); });
			th.join();
		} else
			get_and_check<R>(std::move(f), pr, outcome, coin(), inl);
		CHECK(pr.destroyed_early.get() == 0, "awaitable destroyed before it completed");
		CHECK(pr.resumed_n.get() == 1, "awaitable completed %d times", pr.resumed_n.get());
	}
	void launch_one(pump* p) {
		probe pr;
		int hops = p ? (int)rnd(3) : 0;
		switch (rnd(4)) {
		case 0: asyncpp::launch(aw<int>(&pr, p, hops, 0)); break;
		case 1: {
			aw<int> a(&pr, p, hops, 0);
			asyncpp::launch(a);
			break;
		}
		case 2: asyncpp::launch(via_task<tracked>(aw<tracked>(&pr, p, hops, 0))); break;
		case 3: asyncpp::launch(wrapped<void>{aw<void>(&pr, p, hops, 0)}); break;
		}
		CHECK(pr.started.get() == 1, "launch did not start the awaitable");
		if (hops == 0) CHECK(pr.resumed_n.get() == 1, "launch did not run a ready awaitable to its end");
		for (int spin = 0; pr.resumed_n.get() == 0; spin++) {
			CHECK(spin < 3000, "launched awaitable never completed");
			vrt_sleep_ns(1000000);
		}
		if (p) p->stop();
		CHECK(pr.destroyed_early.get() == 0, "awaitable destroyed before it completed");
	}
	void bridge() {
		reset_globals();
		{
			std::optional<pump> pu;
			if (!coin(5)) pu.emplace(1 + (int)rnd(2));
			pump* p = pu ? &*pu : nullptr;
			int n = 1 + (int)rnd(3);
			while (n--) switch (rnd(5)) {
				case 0: bridge_one<int>(p); break;
				case 1: bridge_one<tracked>(p); break;
				case 2: bridge_one<std::unique_ptr<int>>(p); break;
				case 3: bridge_one<data&>(p); break;
				case 4: bridge_one<void>(p); break;
				}
			vrt_count("bridged", 1);
			if (coin()) launch_one(p);
			if (p) vrt_nontrivial();
		}
		check_quiescent();
	}
	// the waiter is blocked while several bridged awaitables complete
	void blocked() {
		reset_globals();
		{
			pump p(1 + (int)rnd(2));
			int n = 2 + (int)rnd(2);
			parallel(n, [&](int) {
				int k = 1 + (int)rnd(2);
				while (k--) {
					if (coin()) bridge_one<tracked>(&p);
					else bridge_one<void>(&p);
				}
			});
			vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"tree", tree, 0}, {"deep", deep, 0}, {"bridge", bridge, 0}, {"blocked", blocked, 0})
