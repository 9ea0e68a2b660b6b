// C13: simple_dispatcher and async_main
#include "hd.h"
#define main lib_main
#include <asyncpp/async_main.h>
#undef main
#include <asyncpp/simple_dispatcher.h>
#include <atomic>
#include <optional>
using namespace h;
namespace {
	using disp = asyncpp::simple_dispatcher;
	struct task {
		moment call, ret, begin;
		int started = 0, order = -1;
		bool done = false;
	};
	struct world {
		disp* d;
		std::vector<task> tasks;
		mon<int> in_task, next, in_run, stops, run_tid;
		moment stopped;
		int stop_tid = -1, late = 0;
		bool returned = false;
		world() : d(new disp) {
			vrt_ignore i;
			tasks.reserve(128);
			run_tid.v = -1;
		}
		~world() {
			vrt_ignore i;
			std::vector<task>().swap(tasks);
		}
		void stop() {
			stops.add(1);
			d->stop();
			vrt_ignore i;
			if (!stopped.set) {
				stopped = moment::now();
				stop_tid = vrt_tid();
			}
		}
		void begin(int id) {
			auto* cur = asyncpp::dispatcher::current();
			vrt_ignore i;
			task& t = tasks[id];
			CHECK(t.started++ == 0, "task %d executed twice", id);
			CHECK(in_task.v++ == 0, "two tasks executed at a time");
			CHECK(cur == d, "wrong current dispatcher inside a task");
			CHECK(vrt_tid() == run_tid.v, "task executed on a thread that is not in run()");
			CHECK(!returned, "task executed after run() returned");
			t.order = next.v++;
			t.begin = moment::now();
			// one task may already have been taken when stop() was called from another thread
			if (before(stopped, t.begin)) CHECK(++late <= (stop_tid == run_tid.v ? 0 : 1), "task %d started after stop() had returned", id);
		}
		void end(int id) {
			vrt_ignore i;
			tasks[id].done = true;
			in_task.v--;
		}
		void push(int depth, bool may_stop) {
			int id;
			{
				vrt_ignore i;
				CHECK(tasks.size() < 120, "too many tasks");
				tasks.push_back({});
				id = (int)tasks.size() - 1;
				tasks[id].call = moment::now();
			}
			tracked tr(id);
			int kids = depth ? (int)rnd(3) : 0;
			bool st = may_stop && coin(6);
			bool slow = coin(4);
			if (coin(16)) d->push({}); // a function that is empty has no effect
			d->push([this, id, depth, kids, st, slow, may_stop, tr = std::move(tr)]() {
				begin(id);
				CHECK(tr.get() == id, "task state damaged");
				if (slow) vrt_sleep_ns(1000 + rnd(100000));
				for (int k = 0; k < kids; k++) push(depth - 1, may_stop);
				if (st) stop();
				end(id);
			});
			vrt_ignore i;
			tasks[id].ret = moment::now();
		}
		void run() {
			auto* before_run = asyncpp::dispatcher::current();
			run_tid.set(vrt_tid());
			d->run();
			{
				vrt_ignore i;
				returned = true;
				CHECK(stops.v > 0, "run() returned without stop()");
			}
			CHECK(asyncpp::dispatcher::current() == before_run, "run() did not restore the current dispatcher");
		}
		// executed tasks are a prefix of the push order
		void judge() {
			vrt_ignore ig;
			int ran = 0;
			for (auto& a : tasks) {
				CHECK(!a.started || a.done, "task not finished when run() returned");
				ran += a.started;
				for (auto& b : tasks)
					if (&a != &b && before(a.ret, b.call) && b.started) CHECK(a.started && a.order < b.order, "task pushed later executed first");
			}
			vrt_count("tasks_run", ran);
			vrt_count("tasks_left", tasks.size() - ran);
			vrt_sig(ran * 100 + tasks.size());
		}
	};
	void mixed() {
		reset_globals();
		{
			world w;
			int np = 1 + (int)rnd(3);
			bool stopper = coin();
			for (int k = (int)rnd(3); k > 0; k--) w.push(1, !stopper);
			bool again = coin(4);
			parallel(np + 2, [&](int t) {
				if (t == 0) w.run();
				else if (t <= np)
					for (int k = 1 + (int)rnd(3); k > 0; k--) {
						if (coin(3)) vrt_yield();
						w.push((int)rnd(2), !stopper);
					}
				else {
					for (int k = (int)rnd(5); k > 0; k--) vrt_yield();
					if (coin()) vrt_sleep_ns(rnd(300000));
					w.stop();
				}
			});
			if (again) { // stop is final
				w.returned = false;
				w.run();
			}
			w.judge();
			vrt_nontrivial();
			delete w.d;
		}
		check_quiescent();
	}
	// a sleeping run() is woken by push: the only way out is through the last task
	void wake() {
		reset_globals();
		{
			world w;
			int np = 1 + (int)rnd(3), n = 1 + (int)rnd(3);
			std::atomic<int> left{np * n};
			parallel(np + 1, [&](int t) {
				if (t == 0) w.run();
				else
					for (int k = 0; k < n; k++) {
						if (coin(3)) vrt_sleep_ns(rnd(100000));
						w.push(0, false);
						w.d->push([&]() {
							if (--left == 0) w.stop();
						});
					}
			});
			w.judge();
			{
				vrt_ignore i;
				for (auto& t : w.tasks) CHECK(t.done, "pushed task was not executed");
			}
			vrt_nontrivial();
			delete w.d;
		}
		check_quiescent();
	}
	// stop from elsewhere, then the dispatcher goes away as soon as run() returned
	void stop_destroy() {
		{
			disp* d = new disp;
			mon<disp*> alive(d);
			int n = 1 + (int)rnd(2);
			std::vector<std::thread> th;
			th.reserve(2);
			bool extra = coin();
			for (int i = 0; i < 1; i++)
				th.emplace_back([&]() {
					for (int k = (int)rnd(3); k > 0; k--) vrt_yield();
					if (extra) d->push([]() {});
					d->stop();
				});
			for (int k = 0; k < n; k++) d->push([]() { vrt_yield(); });
			d->run();
			delete d;
			for (auto& t : th) t.join();
			vrt_sig(n * 2 + extra);
			vrt_nontrivial();
		}
	}
	// run() nested in other dispatchers, to any depth
	void nest(int depth, std::vector<asyncpp::dispatcher*>& chain) {
		disp d;
		int n = 1 + (int)rnd(3);
		int ran = 0;
		auto* outer = asyncpp::dispatcher::current();
		for (int k = 0; k < n; k++)
			d.push([&]() {
				CHECK(asyncpp::dispatcher::current() == &d, "wrong current dispatcher in nested run()");
				ran++;
				if (depth > 0 && coin()) nest(depth - 1, chain);
				CHECK(asyncpp::dispatcher::current() == &d, "nested run() left the wrong current dispatcher");
				if (ran == n) d.stop();
			});
		d.run();
		CHECK(ran == n, "%d of %d tasks ran", ran, n);
		CHECK(asyncpp::dispatcher::current() == outer, "nested run() did not restore the outer dispatcher");
		vrt_sig(n + 10 * depth);
	}
	void nested() {
		std::vector<asyncpp::dispatcher*> chain;
		if (coin()) {
			manual m(1);
			m.push([&]() { nest(3, chain); });
			m.push([&]() { CHECK(asyncpp::dispatcher::current() == &m, "outer dispatcher lost"); });
			m.run_all();
		} else
			nest(3, chain);
		CHECK(asyncpp::dispatcher::current() == nullptr, "current dispatcher left set");
		vrt_nontrivial();
	}
	// A task that throws ends run(): the exception reaches its caller, the current dispatcher is restored, the tasks behind it stay
	// queued in order for the next run().
	void throwing() {
		reset_globals();
		{
		disp d;
		manual m(1);
		bool inside = coin();
		int n = 1 + (int)rnd(6), ran = 0, thrown = 0, caught = 0;
		std::vector<char> bad(n);
		for (auto& b : bad) b = coin(3);
		mon<int> order(0);
		for (int k = 0; k < n; k++)
			d.push([&, k, t = tracked(k)]() {
				CHECK(t.get() == k, "task damaged");
				CHECK(asyncpp::dispatcher::current() == &d, "wrong current dispatcher inside a task");
				CHECK(order.add(1) == k, "task %d out of order", k);
				ran++;
				if (k == n - 1) d.stop();
				if (bad[k]) {
					thrown++;
					throw trivial_error{k};
				}
			});
		auto go = [&]() {
			auto* outer = asyncpp::dispatcher::current();
			while (ran < n) {
				int before = ran;
				try {
					d.run();
					CHECK(ran == n, "run() returned after %d of %d tasks without stop()", ran, n);
				} catch (const trivial_error& e) {
					caught++;
					CHECK(e.v == ran - 1, "exception of task %d arrived after task %d", e.v, ran - 1);
				}
				CHECK(asyncpp::dispatcher::current() == outer, "run() did not restore the current dispatcher");
				CHECK(ran > before, "run() returned without running a task");
			}
			CHECK(caught == thrown, "%d of %d exceptions left run()", caught, thrown);
		};
		if (inside) {
			m.push(go);
			m.run_all();
		} else
			go();
		CHECK(asyncpp::dispatcher::current() == nullptr, "current dispatcher left set");
		vrt_sig(n * 64 + thrown * 4 + inside);
		vrt_count("exceptions", thrown);
		if (thrown) vrt_nontrivial();
		}
		check_quiescent();
	}
	// ---- async_main
	struct am {
		int ret = 0, hops = 0, calls = 0, argc = 0;
		bool thrown = false, sub = false;
		const char** argv = nullptr;
		pump* p = nullptr;
		asyncpp::dispatcher* disp = nullptr;
	};
	am* g_am;
	asyncpp::task<int> sub(am& a) {
		for (int i = 0; i < a.hops; i++) {
			if (a.p && coin()) co_await hop{a.p};
			else co_await hop{a.disp};
		}
		if (a.thrown) throw trivial_error{a.ret};
		co_return a.ret;
	}
} // namespace
asyncpp::task<int> async_main(int argc, const char** argv) {
	am& a = *g_am;
	a.calls++;
	a.disp = asyncpp::dispatcher::current();
	CHECK(argc == a.argc && argv == a.argv, "arguments not passed on");
	CHECK(a.disp != nullptr, "async_main runs without a dispatcher");
	if (a.sub) co_return co_await sub(a);
	for (int i = 0; i < a.hops; i++) {
		if (a.p && coin()) {
			co_await hop{a.p};
			CHECK(asyncpp::dispatcher::current() == a.p, "wrong dispatcher after hop");
		} else {
			co_await hop{a.disp};
			CHECK(asyncpp::dispatcher::current() == a.disp, "wrong dispatcher after hop back");
		}
	}
	if (a.thrown) throw trivial_error{a.ret};
	co_return a.ret;
}
namespace {
	void amain() {
		am a;
		const char* args[] = {"x", "y", nullptr};
		a.argc = 2;
		a.argv = args;
		a.ret = (int)rnd(1000);
		a.hops = (int)rnd(5);
		a.thrown = coin(4);
		a.sub = coin(3);
		std::optional<pump> p;
		if (coin()) {
			p.emplace(1);
			a.p = &*p;
		}
		g_am = &a;
		int r = -7;
		bool threw = false;
		try {
			r = lib_main(2, args);
		} catch (const trivial_error& e) {
			threw = true;
			CHECK(e.v == a.ret, "wrong exception");
		}
		if (p) p->stop();
		CHECK(threw == a.thrown, "async_main's exception %s", a.thrown ? "lost" : "invented");
		if (!threw) CHECK(r == a.ret, "main returned %d instead of %d", r, a.ret);
		CHECK(a.calls == 1, "async_main called %d times", a.calls);
		CHECK(asyncpp::dispatcher::current() == nullptr, "current dispatcher left set");
		vrt_sig(a.hops * 8 + a.thrown * 4 + a.sub * 2 + !!a.p);
		if (a.hops) vrt_nontrivial();
	}
} // namespace
SCENARIOS({"mixed", mixed, 0}, {"wake", wake, 0}, {"stop_destroy", stop_destroy, 0}, {"nested", nested, VRT_SINGLE}, {"throwing", throwing, VRT_SINGLE}, {"amain", amain, 0})
