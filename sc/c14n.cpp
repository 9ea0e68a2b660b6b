// C14: the process-wide timer and awaiting durations and time points directly (real time, one child process each)
#include "nat.h"
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/timer.h>
#include <atomic>
#include <thread>
using namespace h;
namespace {
	using namespace asyncpp; // operator co_await for durations
	using steady = std::chrono::steady_clock;
	struct shifted {
		using duration = std::chrono::nanoseconds;
		using rep = duration::rep;
		using period = duration::period;
		using time_point = std::chrono::time_point<shifted>;
		static constexpr bool is_steady = true;
		static time_point now() { return time_point(std::chrono::hours(5) + std::chrono::duration_cast<duration>(steady::now().time_since_epoch())); }
	};
	struct res {
		std::atomic<int> done{0}, bad{0};
		std::atomic<std::thread::id> tid{};
	};
	enum { DUR_MS, DUR_US, DUR_NS, TP_STEADY, TP_SHIFTED, TP_SYSTEM, WAIT_MS, WAIT_TP, NFORM };
	eager_fire_and_forget_task<> one(res* r, int form, long long us) {
		auto t0 = steady::now();
		auto self = std::this_thread::get_id();
		auto d = std::chrono::microseconds(us);
		bool ok = false;
		switch (form) {
		case DUR_MS: ok = co_await std::chrono::duration_cast<std::chrono::milliseconds>(d); break;
		case DUR_US: ok = co_await d; break;
		case DUR_NS: ok = co_await std::chrono::nanoseconds(d); break;
		case TP_STEADY: {
			auto tp = t0 + d;
			ok = co_await tp;
			break;
		}
		case TP_SHIFTED: {
			auto tp = shifted::now() + d;
			ok = co_await tp;
			break;
		}
		case TP_SYSTEM: {
			auto tp = std::chrono::system_clock::now() + d;
			ok = co_await tp;
			break;
		}
		case WAIT_MS: ok = co_await timer::get_default().wait(d); break;
		case WAIT_TP: ok = co_await timer::get_default().wait(t0 + d); break;
		}
		auto el = steady::now() - t0;
		auto want = std::chrono::nanoseconds(d);
		if (form == DUR_MS) want = std::chrono::duration_cast<std::chrono::milliseconds>(d);
		int bad = 0;
		if (!ok) bad = 1;
		if (form != TP_SYSTEM && el < want) bad = 2; // the system clock may be adjusted
		if (el > want + std::chrono::seconds(15)) bad = 3;
		if (std::this_thread::get_id() != self) { // suspended: continued by the timer
			if (dispatcher::current() != &timer::get_default()) bad = 4;
			std::thread::id none{}, me = std::this_thread::get_id();
			if (!r->tid.compare_exchange_strong(none, me) && none != me) bad = 5;
		} else if (us > 1000000) bad = 6;
		if (bad) r->bad = bad;
		r->done.fetch_add(1);
		r->done.notify_all();
	}
	void deflt() {
		reset_globals();
		int n = 1 + (int)rnd(5), form[5], us[5];
		for (int i = 0; i < n; i++) {
			form[i] = (int)rnd(NFORM);
			us[i] = coin(4) ? -(int)rnd(3000) : (int)rnd(4000);
		}
		int st = in_child([&]() {
			res r;
			auto* t = &timer::get_default();
			if (t != &timer::get_default()) _exit(50);
			for (int i = 0; i < n; i++) one(&r, form[i], us[i]);
			for (int d = r.done.load(); d < n; d = r.done.load()) r.done.wait(d);
			_exit(r.bad ? 50 + r.bad.load() : 0);
		});
		static const char* const why[] = {"two default timers", "gave false", "resumed early", "resumed more than 15 s late", "current() is not the timer", "resumed on several threads", "did not wait"};
		CHECK(st < 50 || st > 56, "awaiting a duration or time point (%d waits, first %d): %s", n, form[0], why[st - 50]);
		CHECK(st == 0, "awaiting durations and time points: child ended with status %d (hung if 1014)", st);
		vrt_count("waits", n);
		long long sig = n;
		for (int i = 0; i < n; i++) sig = sig * 31 + form[i] * 7 + (us[i] < 0);
		vrt_sig(sig);
		vrt_nontrivial();
		check_quiescent();
	}
} // namespace
SCENARIOS({"default", deflt, 0})
