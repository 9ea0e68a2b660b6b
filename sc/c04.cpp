// C04: latch
#include "hd.h"
#include <asyncpp/latch.h>
#include <optional>
using namespace h;
namespace {
	struct world {
		asyncpp::latch l;
		size_t initial;
		data pub[8];
		bool nonzero[8] = {};
		int ndec = 0;
		// monitor state
		long begun = 0;	 // amount whose decrement() call has begun
		long ended = 0;	 // amount whose decrement() call has returned
		int passed = 0;
		std::vector<moment> ends;
		explicit world(size_t n) : l(n), initial(n) {}
		~world() {
			vrt_ignore i;
			std::vector<moment>().swap(ends);
		}
	};
	void passed_check(world& w, const char* what) {
		{
			vrt_ignore i;
			CHECK(w.begun >= (long)w.initial, "%s before the latch reached zero: only %ld of %zu decremented", what, w.begun, w.initial);
		}
		for (int i = 0; i < w.ndec; i++)
			if (w.nonzero[i]) CHECK(w.pub[i].read() == i + 1, "data written before decrement() #%d not visible", i);
	}
	co waiter(world& w, int how, pump* p) {
		if (how == 0) co_await w.l;
		else if (how == 1) co_await w.l.wait();
		else co_await w.l.wait(p);
		passed_check(w, "waiter resumed");
		vrt_ignore i;
		w.passed++;
	}
	void run() {
		reset_globals();
		size_t initial = rnd(8);
		if (coin(20)) initial = asyncpp::latch::max - 5 + rnd(6);
		world w(initial);
		if (initial == 0) CHECK(w.l.is_ready(), "latch with count 0 not ready");
		else CHECK(!w.l.is_ready(), "fresh latch with count %zu is ready", initial);
		// split into decrements
		std::vector<size_t> parts;
		size_t left = initial;
		while (left && parts.size() < 7) {
			size_t k = 1 + rnd(left > 5 ? 5 : left);
			if (parts.size() == 6 || coin(8) || left > 100) k = coin(3) || parts.size() == 6 ? left : (left > 3 ? 1 + rnd(3) : left);
			if (k > left) k = left;
			parts.push_back(k);
			left -= k;
		}
		CHECK(left == 0, "harness");
		if (coin(6)) parts.insert(parts.begin() + rnd(parts.size() + 1), 0); // decrement by nothing
		w.ndec = (int)parts.size();
		for (int i = 0; i < w.ndec; i++) w.nonzero[i] = parts[i] != 0;
		std::optional<pump> p;
		if (coin(4)) p.emplace(1);
		int nw = (int)rnd(4), nt = 1 + (int)rnd(3);
		std::vector<std::vector<int>> prog(nt);
		for (size_t i = 0; i < parts.size(); i++) prog[rnd(nt)].push_back((int)i);
		for (int i = 0; i < nw; i++) {
			auto& v = prog[rnd(nt)];
			v.insert(v.begin() + rnd(v.size() + 1), 100 + (int)rnd(p ? 3 : 2));
		}
		for (int i = (int)rnd(3); i > 0; i--) {
			auto& v = prog[rnd(nt)];
			v.insert(v.begin() + rnd(v.size() + 1), 200);
		}
		bool zeros = false;
		for (auto x : parts) zeros |= x == 0;
		parallel(nt, [&](int t) {
			for (int c : prog[t]) {
				if (c < 100) {
					w.pub[c].write(c + 1);
					{
						vrt_ignore i;
						w.begun += (long)parts[c];
						vrt_log("decrement(%zu)", parts[c]);
					}
					if (parts[c] == 1 && coin()) w.l.decrement();
					else w.l.decrement(parts[c]);
					vrt_ignore i;
					w.ended += (long)parts[c];
					w.ends.push_back(moment::now());
				} else if (c < 200) waiter(w, c - 100, p ? &*p : nullptr);
				else {
					bool expect;
					{
						vrt_ignore i;
						moment now = moment::now();
						expect = w.ended == (long)initial;
						for (auto& m : w.ends)
							if (!before(m, now)) expect = false;
						if ((long)w.ends.size() != w.ndec) expect = false;
					}
					bool r = w.l.is_ready();
					if (r) {
						vrt_ignore i;
						CHECK(w.begun >= (long)initial, "is_ready() with only %ld of %zu decremented", w.begun, initial);
					} else
						CHECK(!expect, "is_ready() is false after the latch reached zero");
				}
			}
		});
		if (p) p->stop();
		CHECK(w.l.is_ready(), "latch not ready although decremented to zero");
		CHECK(live_co() == 0, "%d waiter(s) not resumed although the latch reached zero", live_co());
		CHECK(w.passed == nw, "%d resumptions for %d waiters", w.passed, nw);
		waiter(w, 0, nullptr);
		CHECK(w.passed == nw + 1, "wait on a ready latch suspended");
		vrt_count("waiters", nw);
		vrt_count("decrements", parts.size());
		vrt_sig(hmix(initial, nw));
		for (auto x : parts) vrt_sig(x);
		if (nt > 1 && nw && parts.size() > 1) vrt_nontrivial();
		(void)zeros;
	}
	void zero_dec() { // a zero decrement of a latch still pending must not open it; zero decrements race with others
		reset_globals();
		size_t n = 1 + rnd(3);
		asyncpp::latch l(n);
		int passed = 0;
		auto co_ = [&]() -> co {
			co_await l;
			passed++;
		};
		co_();
		for (size_t i = 0; i < n; i++) {
			CHECK(passed == 0 && !l.is_ready(), "open after %zu of %zu", i, n);
			l.decrement(0);
			CHECK(passed == 0 && !l.is_ready(), "decrement(0) opened the latch");
			l.decrement(1);
		}
		CHECK(passed == 1 && l.is_ready(), "not open at zero");
		l.decrement(0);
		CHECK(passed == 1 && l.is_ready(), "decrement(0) of an open latch");
		check_quiescent();
		vrt_nontrivial();
		vrt_sig(n);
	}
	// the latch lives in the frame of the coroutine waiting for it and dies as soon as it resumes
	co owner(int nt, std::atomic<asyncpp::latch*>& out, data* d, mon<int>& done) {
		asyncpp::latch l((size_t)nt);
		out.store(&l, std::memory_order_release);
		co_await l.wait();
		for (int i = 0; i < nt; i++) CHECK(d[i].read() == i + 1, "data not visible");
		done.add(1);
	}
	void own_latch() {
		reset_globals();
		int nt = 1 + (int)rnd(4);
		std::atomic<asyncpp::latch*> l{nullptr};
		data d[5];
		mon<int> done;
		parallel(nt + 1, [&](int t) {
			if (t == 0) owner(nt, l, d, done);
			else {
				d[t - 1].write(t);
				asyncpp::latch* p;
				while (!(p = l.load(std::memory_order_acquire))) vrt_yield();
				p->decrement();
			}
		});
		CHECK(done.get() == 1, "waiter resumed %d times", done.get());
		check_quiescent();
		vrt_count("decrements", nt);
		vrt_nontrivial();
	}
} // namespace
SCENARIOS({"own_latch", own_latch, 0}, {"run", run, 0}, {"zero_dec", zero_dec, VRT_SINGLE})
