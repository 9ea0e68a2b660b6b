// Harness library for scenarios run under the controlled-execution runtime.
#pragma once
#include "../rt/vrt.h"
#include <algorithm>
#include <coroutine>
#include <exception>
#include <functional>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <utility>
#include <vector>

namespace h {
	using u64 = uint64_t;
#define CHECK(cond, ...)                                    \
	do {                                                    \
		if (!(cond)) vrt_fail("oracle", __VA_ARGS__);       \
	} while (0)
	inline u64 rnd(u64 n) { return vrt_rand(n); }
	inline bool coin(u64 n = 2) { return vrt_rand(n) == 0; }
	// detached coroutine, starts immediately, frees itself; counts live ones
	inline int& live_co() {
		static int n;
		return n;
	}
	struct co {
		struct promise_type {
			promise_type() {
				vrt_ignore i;
				live_co()++;
			}
			~promise_type() {
				vrt_ignore i;
				live_co()--;
			}
			co get_return_object() noexcept { return {}; }
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_never final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() noexcept { vrt_fail("oracle", "unexpected exception escaped into the awaiting coroutine"); }
		};
	};
	struct trivial_error { // exception without heap payload
		int v;
	};
	// run f(0..n-1) on n threads and join them; f(0) runs on the calling thread
	template<class F>
	void parallel(int n, F&& f) {
		std::vector<std::thread> th;
		{
			th.reserve(n);
			for (int i = 1; i < n; i++) th.emplace_back([&f, i] { f(i); });
		}
		f(0);
		for (auto& t : th) t.join();
	}
	// ---- moments: ordered by real time in sequentially consistent executions, by happens-before otherwise
	struct moment {
		u64 step = 0;
		uint32_t snap = 0;
		bool set = false;
		static moment now() {
			moment m;
			m.step = vrt_step();
			if (vrt_stale_mode()) m.snap = vrt_stamp();
			m.set = true;
			return m;
		}
	};
	inline bool before(const moment& a, const moment& b) {
		if (!a.set || !b.set) return false;
		if (vrt_stale_mode()) {
			if (!a.snap || !b.snap) return false;
			return vrt_hb(a.snap, b.snap);
		}
		return a.step < b.step;
	}
	// ---- histories
	struct op {
		int kind = 0, tid = 0;
		long a = 0, b = 0, r = 0, r2 = 0;
		moment call, ret;
		bool done = false;
	};
	struct history {
		std::vector<op> ops;
		history() {
			vrt_ignore i;
			ops.reserve(64);
		}
		~history() {
			vrt_ignore i;
			std::vector<op>().swap(ops);
		}
		int begin(int kind, long a = 0, long b = 0) {
			vrt_ignore i;
			op o;
			o.kind = kind;
			o.a = a;
			o.b = b;
			o.tid = vrt_tid();
			o.call = moment::now();
			ops.push_back(o);
			return (int)ops.size() - 1;
		}
		void end(int id, long r = 0, long r2 = 0) {
			vrt_ignore i;
			CHECK(!ops[id].done, "operation %d completed twice", id);
			ops[id].r = r;
			ops[id].r2 = r2;
			ops[id].done = true;
			ops[id].ret = moment::now();
		}
		void dump(const char* const* names) const {
			vrt_ignore i;
			for (size_t k = 0; k < ops.size(); k++)
				vrt_log("#%zu t%d %s(%ld,%ld) -> %s%ld,%ld [%llu,%llu]", k, ops[k].tid, names[ops[k].kind], ops[k].a, ops[k].b, ops[k].done ? "" : "PENDING ", ops[k].r, ops[k].r2,
						(unsigned long long)ops[k].call.step, (unsigned long long)ops[k].ret.step);
		}
		void signature() const {
			vrt_ignore i;
			std::vector<std::pair<u64, u64>> ev;
			for (size_t k = 0; k < ops.size(); k++) {
				ev.emplace_back(ops[k].call.step, k * 2 + ((u64)ops[k].kind << 20) + ((u64)(unsigned)ops[k].a << 32));
				if (ops[k].done) ev.emplace_back(ops[k].ret.step, k * 2 + 1 + ((u64)(unsigned)ops[k].r << 24));
			}
			std::sort(ev.begin(), ev.end());
			for (auto& e : ev) vrt_sig(e.second);
		}
		bool overlapped() const { // did two operations of different threads overlap
			for (size_t i = 0; i < ops.size(); i++)
				for (size_t j = 0; j < ops.size(); j++)
					if (i != j && ops[i].tid != ops[j].tid && ops[i].call.step < ops[j].call.step && (!ops[i].done || ops[i].ret.step > ops[j].call.step)) return true;
			return false;
		}
	};
	// Wing & Gong search with memoisation. Model: copyable, bool apply(const op&) (false: impossible now),
	// u64 key() const. Pending operations may take effect or not. Returns 1 ok, 0 violation, -1 gave up.
	template<class Model>
	int linearizable(const std::vector<op>& ops, const Model& init, u64 limit = 200000) {
		vrt_ignore ig;
		size_t n = ops.size();
		if (n > 60) return -1;
		std::vector<u64> pred(n, 0);
		u64 need = 0;
		for (size_t i = 0; i < n; i++) {
			if (ops[i].done) need |= 1ull << i;
			for (size_t j = 0; j < n; j++)
				if (i != j && ops[j].done && before(ops[j].ret, ops[i].call)) pred[i] |= 1ull << j;
		}
		std::set<std::pair<u64, u64>> seen;
		u64 cnt = 0;
		std::function<int(u64, const Model&)> go = [&](u64 doneset, const Model& m) -> int {
			if ((doneset & need) == need) return 1;
			if (!seen.insert({doneset, m.key()}).second) return 0;
			if (++cnt > limit) return -1;
			for (size_t i = 0; i < n; i++) {
				if ((doneset >> i) & 1) continue;
				if ((pred[i] & ~doneset) != 0) continue;
				Model next = m;
				if (!next.apply(ops[i])) continue;
				int r = go(doneset | (1ull << i), next);
				if (r) return r;
			}
			return 0;
		};
		return go(0, init);
	}
	inline u64 hmix(u64 a, u64 b) {
		u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		return z ^ (z >> 27);
	}
	// monitor variable: accessed only inside ignore scopes, so never racy for the runtime
	template<class T>
	struct mon {
		T v{};
		mon() = default;
		explicit mon(T x) : v(x) {}
		T get() const {
			vrt_ignore i;
			return v;
		}
		void set(T x) {
			vrt_ignore i;
			v = x;
		}
		T add(T d) {
			vrt_ignore i;
			T o = v;
			v += d;
			return o;
		}
	};
	// a plain cell whose accesses ARE race checked: stands for user data guarded by the primitive
	struct data {
		long v = 0;
		__attribute__((noinline)) void write(long x) { v = x; }
		__attribute__((noinline)) long read() const { return v; }
	};
	// counts constructions/destructions, detects use after destruction and double destruction
	struct tracked {
		static int& live() {
			static int n;
			return n;
		}
		int val;
		unsigned magic;
		static const unsigned OK = 0x600DF00D, MOVED = 0x30FED, DEAD = 0xDEAD;
		explicit tracked(int v = 0) : val(v), magic(OK) {
			vrt_ignore i;
			live()++;
		}
		tracked(const tracked& o) : val(o.val), magic(o.magic) {
			vrt_ignore i;
			CHECK(o.magic == OK, "copied from a %s object", o.magic == MOVED ? "moved-from" : "destroyed");
			live()++;
		}
		tracked(tracked&& o) noexcept : val(o.val), magic(o.magic) {
			vrt_ignore i;
			CHECK(o.magic == OK || o.magic == MOVED, "moved from a destroyed object");
			o.magic = MOVED;
			live()++;
		}
		tracked& operator=(const tracked& o) {
			CHECK(magic != DEAD && o.magic == OK, "bad copy assignment");
			val = o.val;
			magic = o.magic;
			return *this;
		}
		tracked& operator=(tracked&& o) noexcept {
			CHECK(magic == OK || magic == MOVED, "assigned to a destroyed object");
			if (&o != this) {
				val = o.val;
				magic = o.magic;
				o.magic = MOVED;
			}
			return *this;
		}
		~tracked() {
			vrt_ignore i;
			CHECK(magic == OK || magic == MOVED, "object destroyed twice");
			magic = DEAD;
			live()--;
		}
		int get() const {
			CHECK(magic == OK, "value read from a %s object", magic == MOVED ? "moved-from" : "destroyed");
			return val;
		}
	};
	inline void reset_globals() {
		live_co() = 0;
		tracked::live() = 0;
	}
	inline void check_quiescent() {
		CHECK(live_co() == 0, "%d coroutine(s) never resumed to completion", live_co());
		CHECK(tracked::live() == 0, "%d tracked object(s) not destroyed", tracked::live());
	}
	template<class T>
	using vec = std::vector<T>;
} // namespace h
#define SCENARIOS(...)                                                  \
	static const vrt_scenario vrt_tab_[] = {__VA_ARGS__};               \
	int main(int argc, char** argv) {                                   \
		return vrt_main(argc, argv, vrt_tab_, sizeof vrt_tab_ / sizeof *vrt_tab_); \
	}
