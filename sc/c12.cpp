// C12: thread_pool
#include <system_error>
#include "h.h"
#include <asyncpp/thread_pool.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <optional>
using namespace h;
namespace {
	using pool = asyncpp::thread_pool;
	struct task {
		int pool = 0, ran = 0, started = 0;
		bool accepted = false, refused = false, own = false;
		moment call, ret, end;
	};
	struct world {
		pool* p[2] = {};
		std::vector<task> tasks;
		std::set<int> harness_tids;
		mon<int> throws, nested, cross, late, running[2];
		data guard[64]; // written by the pusher before, read by the task after
		world() {
			vrt_ignore i;
			tasks.reserve(256);
		}
		~world() {
			vrt_ignore i;
			std::vector<task>().swap(tasks);
			std::set<int>().swap(harness_tids);
		}
		void harness_thread() {
			vrt_ignore i;
			harness_tids.insert(vrt_tid());
		}
		int make(int which, bool own) {
			vrt_ignore i;
			CHECK(tasks.size() < 250, "too many tasks");
			tasks.push_back({});
			tasks.back().pool = which;
			tasks.back().own = own;
			return (int)tasks.size() - 1;
		}
		void begin(int id) {
			auto* cur = asyncpp::dispatcher::current();
			vrt_ignore i;
			task& t = tasks[id];
			CHECK(t.started++ == 0, "task %d executed twice", id);
			CHECK(!harness_tids.count(vrt_tid()), "task %d executed on a thread that is no worker", id);
			CHECK(cur == p[t.pool], "task %d of pool %d executed with the %s as current dispatcher", id, t.pool, cur == nullptr ? "null dispatcher" : "other pool");
			running[t.pool].v++;
		}
		void end(int id) {
			vrt_ignore i;
			task& t = tasks[id];
			t.ran++;
			t.end = moment::now();
			running[t.pool].v--;
		}
		// what a task does: depth limits nesting
		void push(int which, int depth, bool from_task) {
			int id = make(which, from_task);
			if (id < 64) guard[id].write(id * 3 + 1);
			int what = (int)rnd(8);
			int kids = depth > 0 ? (int)rnd(3) : 0;
			{
				vrt_ignore i;
				tasks[id].call = moment::now();
			}
			tracked tr(id);
			struct tail { // pushes once the callable is destroyed
				world* w;
				int which, depth;
				bool armed = false;
				~tail() {
					if (!armed) return;
					w->late.add(1);
					w->push(which, depth - 1, true);
				}
			};
			std::shared_ptr<tail> last;
			if (depth > 0 && coin(4)) last = std::make_shared<tail>(this, which, depth);
			bool ok = true;
			try {
				if (coin(16)) p[which]->push({}); // a function that is empty has no effect
				p[which]->push([this, id, which, depth, what, kids, tr = std::move(tr), last = std::move(last)]() {
					begin(id);
					if (last) last->armed = true;
					CHECK(tr.get() == id, "task state damaged");
					if (id < 64) CHECK(guard[id].read() == id * 3 + 1, "pusher's writes not visible");
					if (what == 0) vrt_yield();
					if (what == 1) vrt_sleep_ns(1000 * (1 + rnd(200000)));
					for (int k = 0; k < kids; k++) {
						int w = coin(3) ? 1 - which : which;
						if (!p[w]) w = which;
						nested.add(1);
						if (w != which) cross.add(1);
						push(w, depth - 1, true);
						if (coin(4)) vrt_yield();
					}
					end(id);
				});
			} catch (const std::runtime_error&) {
				ok = false;
				throws.add(1);
			}
			vrt_ignore i;
			tasks[id].ret = moment::now();
			(ok ? tasks[id].accepted : tasks[id].refused) = true;
		}
		// every task of pool w accepted so far has run
		void check_done(int w, const char* when) {
			vrt_ignore i;
			for (size_t k = 0; k < tasks.size(); k++)
				if (tasks[k].pool == w && tasks[k].accepted) CHECK(tasks[k].ran == 1, "task %zu was accepted but %s %s", k, tasks[k].started ? "is unfinished" : "never ran", when);
		}
		void finish(int n) {
			vrt_ignore i;
			int ran = 0;
			for (size_t k = 0; k < tasks.size(); k++) {
				task& t = tasks[k];
				CHECK(t.accepted != t.refused, "push of task %zu did not return", k);
				if (t.accepted) CHECK(t.ran == 1, "task %zu (pool %d, pushed from %s) was accepted but ran %d times", k, t.pool, t.own ? "a task" : "outside", t.ran);
				else CHECK(t.started == 0, "task %zu was refused but executed", k);
				ran += t.ran;
			}
			vrt_count("tasks_run", ran);
			vrt_count("nested_pushes", nested.get());
			vrt_count("cross_pool_pushes", cross.get());
			vrt_count("pushed_by_destructors", late.get());
			vrt_count("refused", throws.get());
			vrt_sig(ran * 1000 + n);
			if (ran > 1) vrt_nontrivial();
		}
	};
	template<class F>
	void isolated(F f) { // a fresh thread has fresh thread_locals, so that an execution depends on its seed alone
		std::thread t(f);
		t.join();
	}
	void churn() {
		reset_globals();
		isolated([]() {
			world w;
			w.harness_thread();
			int np = 1 + (int)rnd(2);
			for (int i = 0; i < np; i++) w.p[i] = new pool(coin(6) ? 0 : 1 + rnd(3));
			int npush = 1 + (int)rnd(2);
			int nres = (int)rnd(3);
			bool resizer = nres > 0;
			parallel(npush + resizer, [&](int t) {
				w.harness_thread();
				if (t < npush) {
					for (int k = 1 + (int)rnd(5); k > 0; k--) {
						w.push((int)rnd(np), (int)rnd(3), false);
						if (coin(3)) vrt_yield();
					}
				} else
					for (int k = 0; k < nres; k++) {
						int which = (int)rnd(np);
						size_t target = rnd(4);
						if (coin()) vrt_yield();
						w.p[which]->resize(target);
						CHECK(w.p[which]->size() == target, "size() is %zu after resize(%zu)", w.p[which]->size(), target);
					}
			});
			// with two pools tasks of one may push into the other: empty both before destroying
			if (np == 2 || coin())
				for (int round = 0;; round++) {
					bool idle = true;
					{
						vrt_ignore i;
						for (auto& t : w.tasks)
							if (t.accepted && !t.ran && w.p[t.pool]->size() > 0) idle = false;
					}
					if (idle) break;
					CHECK(round < 2000, "accepted tasks never run");
					vrt_sleep_ns(10000000);
				}
			for (int i = 0; i < np; i++)
				if (np == 2 || coin()) {
					w.p[i]->resize(0);
					w.check_done(i, "when resize(0) returned");
					CHECK(w.running[i].get() == 0, "a task is still running after resize(0)");
					bool thrown = false;
					try {
						w.p[i]->push([]() { vrt_fail("oracle", "task executed by an empty pool"); });
					} catch (const std::runtime_error&) { thrown = true; }
					CHECK(thrown, "an empty pool accepted a task");
					if (np == 1 && coin()) { // and it can be revived
						w.p[i]->resize(1 + rnd(2));
						w.push(i, 1, false);
					}
				}
			for (int i = np - 1; i >= 0; i--) {
				delete w.p[i];
				w.check_done(i, "when the pool was destroyed");
			}
			w.finish(np);
		});
		check_quiescent();
	}
	// pushers race one resize, over and over
	void shrink_race() {
		reset_globals();
		isolated([]() {
			world w;
			w.harness_thread();
			w.p[0] = new pool(2 + rnd(2));
			int npush = 1 + (int)rnd(2), nres = 1 + coin(3);
			size_t last[2] = {99, 99};
			parallel(npush + nres, [&](int t) {
				w.harness_thread();
				if (t < npush)
					for (int k = 1 + (int)rnd(4); k > 0; k--) w.push(0, (int)rnd(2), false);
				else {
					size_t target = rnd(2 + 2 * (nres > 1));
					w.p[0]->resize(target);
					if (coin(3)) w.p[0]->resize(target = 1);
					last[t - npush] = target;
				}
			});
			size_t n = w.p[0]->size();
			CHECK(n == last[0] || n == last[1], "size() is %zu instead of %zu", n, last[0]);
			if (coin()) {
				w.p[0]->resize(0);
				w.check_done(0, "when resize(0) returned");
			}
			delete w.p[0];
			w.check_done(0, "when the pool was destroyed");
			w.finish(1);
			vrt_nontrivial();
		});
		check_quiescent();
	}
	// n workers really serve n blocking tasks, also when all of them were queued to one worker
	void blocking() {
		reset_globals();
		isolated([]() {
			std::optional<pool> p;
			size_t n = 1 + rnd(4);
			p.emplace(n);
			if (coin()) {
				size_t m = 1 + rnd(4);
				p->resize(m);
				n = m;
			}
			CHECK(p->size() == n, "size() is %zu instead of %zu", p->size(), n);
			std::mutex m;
			std::condition_variable cv;
			size_t in = 0, out = 0;
			auto body = [&]() {
				std::unique_lock lck(m);
				in++;
				cv.notify_all();
				while (in < n) cv.wait(lck);
				out++;
				cv.notify_all();
			};
			bool from_task = coin();
			int shape = (int)rnd(3);
			if (from_task)
				p->push([&]() {
					if (shape == 0) // flat: all behind this one in the same queue, and this one blocks too
						for (size_t i = 1; i < n; i++) p->push(body);
					else {
						std::function<void(size_t)> spawn = [&](size_t k) {
							if (k == 0) return;
							p->push(body);
							spawn(k - 1);
						};
						spawn(n - 1);
					}
					body();
				});
			else
				for (size_t i = 0; i < n; i++) p->push(body);
			{
				std::unique_lock lck(m);
				while (out < n) cv.wait(lck);
			}
			vrt_sig(n * 10 + from_task);
			vrt_count("tasks_run", n);
			if (n > 1) vrt_nontrivial();
			p.reset();
		});
		check_quiescent();
	}
	// destruction straight after pushing: everything accepted still runs
	void drop() {
		reset_globals();
		isolated([]() {
			world w;
			w.harness_thread();
			w.p[0] = new pool(1 + rnd(3));
			for (int k = 1 + (int)rnd(5); k > 0; k--) w.push(0, (int)rnd(3), false);
			delete w.p[0];
			w.check_done(0, "when the pool was destroyed");
			w.finish(1);
			vrt_nontrivial();
		});
		check_quiescent();
	}
	// the system runs out of threads while the pool grows: it stays as it was and works on
	void exhausted() {
		reset_globals();
		isolated([]() {
			world w;
			w.harness_thread();
			size_t n0 = rnd(3), grow = 1 + rnd(3);
			int nth = 1 + (int)rnd(grow);
			auto refused = [](auto&& fn) {
				try {
					fn();
				} catch (const std::system_error&) { return true; }
				vrt_fail_threads(0);
				return false;
			};
			if (coin(4)) { // already in the constructor
				vrt_fail_threads(nth);
				CHECK(refused([&]() { pool x(grow); }), "a thread could not be created, but the pool was constructed");
			}
			w.p[0] = new pool(n0);
			bool pushes = n0 > 0 && coin();
			mon<int> grown;
			auto grow_it = [&]() {
				vrt_fail_threads(nth);
				CHECK(refused([&]() { w.p[0]->resize(n0 + grow); }), "a thread could not be created, but resize() succeeded");
				CHECK(w.p[0]->size() == n0, "size() is %zu after a failed resize from %zu to %zu", w.p[0]->size(), n0, n0 + grow);
				if (coin()) {
					w.p[0]->resize(n0 + grow);
					grown.set(1);
					CHECK(w.p[0]->size() == n0 + grow, "size() is %zu after resize(%zu)", w.p[0]->size(), n0 + grow);
				}
			};
			if (pushes) {
				// parallel() creates its threads before the failing creation is set up
				std::atomic<int> ready{0};
				parallel(2, [&](int t) {
					w.harness_thread();
					ready.fetch_add(1);
					while (ready.load() != 2) vrt_sleep_ns(1000);
					if (t == 0)
						for (int k = 1 + (int)rnd(4); k > 0; k--) w.push(0, (int)rnd(3), false);
					else grow_it();
				});
			} else grow_it();
			if (w.p[0]->size() > 0)
				for (int k = (int)rnd(3); k > 0; k--) w.push(0, (int)rnd(3), false);
			if (coin()) {
				w.p[0]->resize(0);
				w.check_done(0, "when resize(0) returned");
			}
			delete w.p[0];
			w.check_done(0, "when the pool was destroyed");
			w.finish(1);
			vrt_count("failed_growths", 1);
			vrt_sig(n0 * 100 + grow * 10 + nth);
			vrt_nontrivial();
		});
		check_quiescent();
	}
} // namespace
SCENARIOS({"churn", churn, 0}, {"shrink_race", shrink_race, 0}, {"blocking", blocking, 0}, {"drop", drop, 0}, {"exhausted", exhausted, 0})
