// Controlled-execution runtime: interface for scenarios.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

extern "C" {
// ---- randomness of the generated program (independent from the schedule stream)
uint64_t vrt_rand64();
static inline uint64_t vrt_rand(uint64_t n) { return n ? vrt_rand64() % n : 0; }
// ---- monitor scopes: accesses inside are neither race checked nor scheduled nor arena allocated
void vrt_ignore_begin();
void vrt_ignore_end();
// ---- verdicts. Never return.
[[noreturn]] void vrt_fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// ---- text event log of this execution (shown with a violation, sampled for the evidence)
void vrt_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// ---- counters reported as evidence ("events observed"); key must be a string literal
void vrt_count(const char* key, uint64_t n);
// mark the execution as non-trivial (by the scenario's own rule)
void vrt_nontrivial();
// add something to the execution's signature (distinct behaviours)
void vrt_sig(uint64_t v);
// ---- logical time
uint64_t vrt_now_ns();	  // virtual clock
uint64_t vrt_step();	  // monotonically increasing event counter (unique per call)
int vrt_tid();			  // id of the running virtual thread
void vrt_yield();		  // explicit scheduling point
void vrt_sleep_ns(uint64_t ns);
int vrt_switches();		  // context switches so far
// ---- happens-before stamps
uint32_t vrt_stamp();
bool vrt_hb(uint32_t a, uint32_t b);
bool vrt_stale_mode(); // are stale reads being injected in this execution
bool vrt_timefuzz();   // may virtual time leap past deadlines while threads are runnable
// number of live blocks allocated by the program in this execution
size_t vrt_live_blocks();
size_t vrt_live_maps();
size_t vrt_live_fibers(); // fibers TSan was told about
bool vrt_is_live(const void* p); // arena pointer to live block
void vrt_fail_threads(int nth);			// the nth thread created from now on fails with EAGAIN (0: none)
void vrt_expect_leaks();		 // this execution may leave blocks behind (e.g. abandoned coroutine)
void vrt_acquire_release(void* addr); // model synchronisation through addr (harness only)
}

typedef void (*vrt_scenario_fn)();
struct vrt_scenario {
	const char* name;
	vrt_scenario_fn fn;
	unsigned flags; // VRT_*
};
enum {
	VRT_NOLEAP = 1,		// never leap virtual time while threads are runnable
	VRT_NOSTALE = 2,	// never inject stale atomic reads
	VRT_SINGLE = 4,		// single threaded scenario (no scheduling statistics expected)
	VRT_NOLEAK = 8,		// do not check leaks at the end
	VRT_NOSPURIOUS = 16 // no spurious wakeups/weak CAS failures
};
int vrt_main(int argc, char** argv, const vrt_scenario* tab, size_t n);

struct vrt_ignore {
	vrt_ignore() { vrt_ignore_begin(); }
	~vrt_ignore() { vrt_ignore_end(); }
	vrt_ignore(const vrt_ignore&) = delete;
};
