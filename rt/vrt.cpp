// Controlled-execution runtime implementing the __tsan_* instrumentation ABI of gcc.
// Compiled WITHOUT instrumentation and without STL (template instantiations would be shared with
// the instrumented scenario code by the linker).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#undef _FORTIFY_SOURCE
#include "vrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
// The runtime must not call the interposed memory functions on its own data.
static inline void* imemset(void* d, int v, size_t n) {
	void* r = d;
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
	return r;
}
static inline void* imemcpy(void* d, const void* s, size_t n) {
	void* r = d;
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	return r;
}

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define NOINLINE __attribute__((noinline))
#define PC() ((uptr)__builtin_return_address(0))

static const int MAXT = 40;

// ------------------------------------------------------------------ raw syscalls
static inline long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
	register long r10 asm("r10") = d;
	register long r8 asm("r8") = e;
	register long r9 asm("r9") = f;
	long ret;
	asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}

// ------------------------------------------------------------------ rng
struct Rng {
	u64 s;
	u64 next() {
		u64 z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	bool one_in(u64 n) { return n && next() % n == 0; }
};
static u64 mix(u64 a, u64 b) {
	Rng r{a ^ (b * 0x9ddfea08eb382d69ull) ^ (b >> 31)};
	r.next();
	return r.next();
}
static u64 strhash(const char* s) {
	u64 h = 1469598103934665603ull;
	for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull;
	return h;
}

// ------------------------------------------------------------------ vector clocks & threads
struct VC {
	u32 c[MAXT];
};
static int g_nthr; // used slots in this execution
static inline void vc_join(VC& a, const VC& b) {
	for (int i = 0; i < g_nthr; i++)
		if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
enum State { ST_UNUSED, ST_RUN, ST_MUTEX, ST_RW, ST_COND, ST_SLEEP, ST_JOIN, ST_FUTEX, ST_ONCE, ST_ALL, ST_DONE };
static const char* state_name[] = {"unused", "runnable", "mutex", "rwlock", "cond", "sleep", "join", "futex", "once", "end", "done"};
struct Thr {
	int id;
	volatile int sem;
	State state;
	void* obj;	  // waited object
	u64 deadline; // 0 = none
	bool timedout, signaled;
	uptr blockpc;
	u64 prio;
	u32 streak; // consecutive scheduling points without a switch
	int ignore;
	int in_rt;
	VC vc;	 // happens-before
	VC view; // visibility (>= vc): additionally ordered by seq_cst
	VC relf; // clock at last release fence
	VC acqf; // joined clocks of relaxed loads, taken by acquire fence
	bool has_relf;
	bool detached, joined;
	void* (*fn)(void*);
	void* arg;
	void* ret;
	pthread_t real;
	bool real_started;
	u32 freshcnt;
	void* fiber; // TSan fiber the thread runs, nullptr: its own
};
static Thr g_thr[MAXT];
static __thread Thr* self __attribute__((tls_model("initial-exec")));
static Thr* g_cur;
static bool g_active; // an execution is in progress

// ------------------------------------------------------------------ execution parameters
enum Strategy { S_RANDOM, S_PCT, S_BURST };
struct Mode {
	int strategy;
	u64 switch_den;
	u64 plain_den;	 // 0: plain accesses are no scheduling points
	u64 spurious_den; // cond spurious wakeup
	u64 weak_den;	 // weak CAS failure
	u64 leap_den;
	u64 stale_den;
	int pct_k, pct_d;
	u64 changes[8];
	u64 burst_left;
	int burst_victim;
};
static Mode M;
static Rng RS, RP; // schedule, program
static u64 g_exec_seed, g_exec_index;
static u32 g_exec; // generation, for lazily reset shadow
static u64 g_steps, g_events, g_vtime, g_switches, g_idlejumps;
static u64 g_step_budget = 400000;
static u64 g_sig, g_usersig;
static bool g_nontrivial, g_expect_leaks;
static int g_fail_threads; // the n-th creation of a thread from now fails
static int g_lowprio;
static const vrt_scenario* g_sc;
static int g_verbose;
static u64 g_live_maps;
// totals for the evidence
static u64 T_exec, T_steps, T_switches, T_points, T_plain, T_atomic, T_sync, T_weakfail, T_stale, T_spur, T_leap, T_nontriv, T_races_checked, T_threads;

static void fail_v(const char* kind, const char* fmt, va_list ap) __attribute__((noreturn));
static void failf(const char* kind, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));

// ------------------------------------------------------------------ text log
static char* g_log;
static size_t g_loglen;
static const size_t LOGMAX = 1 << 17;
static void logv(const char* fmt, va_list ap) {
	if (g_loglen + 400 > LOGMAX) return;
	g_loglen += (size_t)snprintf(g_log + g_loglen, LOGMAX - g_loglen, "[%llu t%d] ", (unsigned long long)g_steps, g_cur ? g_cur->id : -1);
	g_loglen += (size_t)vsnprintf(g_log + g_loglen, 300, fmt, ap) < 300 ? strlen(g_log + g_loglen) : 299;
	g_log[g_loglen++] = '\n';
	g_log[g_loglen] = 0;
}
struct RtScope {
	Thr* t;
	RtScope() : t(self) {
		if (t) t->in_rt++;
	}
	~RtScope() {
		if (t) t->in_rt--;
	}
};

// ------------------------------------------------------------------ arena heap
static const uptr ARENA = 0x610000000000ull;
static const size_t ARENA_SIZE = 512ull << 20;
static u8* g_gran; // per 8-byte granule: 0..8 valid bytes, else codes
enum { G_RED = 0x80, G_FREED = 0x81, G_UNALLOC = 0x82 };
static size_t g_brk;
struct Block {
	uptr addr;
	size_t size;
	uptr apc, fpc;
	u8 live, atid, ftid, kind;
};
static const u32 MAXBLOCKS = 1 << 20;
static Block* g_blocks;
static u32 g_nblocks;
static size_t g_live;
static inline bool in_arena(uptr a) { return a - ARENA < ARENA_SIZE; }
static Block* find_block(uptr a) {
	if (!g_nblocks) return nullptr;
	u32 lo = 0, hi = g_nblocks;
	while (hi - lo > 1) {
		u32 m = (lo + hi) / 2;
		if (g_blocks[m].addr <= a + 32) lo = m; // red zone before belongs to it
		else hi = m;
	}
	// prefer the block whose body contains a
	for (int d = 0; d < 2; d++) {
		if (lo >= (u32)d) {
			Block* b = &g_blocks[lo - d];
			if (a >= b->addr && a < b->addr + (b->size ? b->size : 1)) return b;
		}
	}
	return &g_blocks[lo];
}
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
static inline bool user_ctx() {
	Thr* t = self;
	return g_active && t && !t->in_rt && !t->ignore;
}
enum { K_MALLOC, K_NEW, K_NEWARR };
static void shadow_clear(uptr a, size_t n);
static void range_access(uptr a, size_t n, u8 flags, uptr pc);
enum { F_WRITE = 1, F_ATOMIC = 2, F_FREE = 4 };

static void* arena_alloc(size_t size, size_t align, int kind, uptr pc) {
	RtScope rs;
	if (align < 16) align = 16;
	uptr p = ARENA + g_brk + 32;
	p = (p + align - 1) & ~(align - 1);
	size_t end = (p - ARENA) + ((size + 15) & ~15ull) + 16;
	if (end > ARENA_SIZE || g_nblocks >= MAXBLOCKS) {
		fprintf(stderr, "vrt: arena exhausted\n");
		rawsys(SYS_exit_group, 90);
	}
	// mark redzone
	size_t g0 = g_brk / 8, gp = (p - ARENA) / 8, ge = end / 8;
	imemset(g_gran + g0, G_RED, gp - g0);
	size_t full = size / 8;
	imemset(g_gran + gp, 8, full);
	size_t i = gp + full;
	if (size & 7) g_gran[i++] = size & 7;
	imemset(g_gran + i, G_RED, ge - i);
	g_brk = end;
	Block& b = g_blocks[g_nblocks];
	b = Block{p, size, pc, 0, 1, (u8)(self ? self->id : 0), 0, (u8)kind};
	((u64*)p)[-1] = 0xB10C000000000000ull | g_nblocks;
	g_nblocks++;
	g_live++;
	imemset((void*)p, 0xCD, size);
	return (void*)p;
}
static void arena_free(void* ptr, int kind, size_t size, bool sized, uptr pc) {
	RtScope rs;
	uptr p = (uptr)ptr;
	u64 h = (p & 15) ? 0 : ((u64*)p)[-1];
	if ((h >> 48) != 0xB10C || (h & 0xffffffff) >= g_nblocks || g_blocks[h & 0xffffffff].addr != p) {
		Block* b = find_block(p);
		failf("bad-free", "free of %p which is not the start of an allocation (nearest block %p size %zu)", ptr, b ? (void*)b->addr : nullptr, b ? b->size : 0);
	}
	Block& b = g_blocks[h & 0xffffffff];
	if (!b.live) failf("double-free", "block %p size %zu allocated at @%lx freed twice: first @%lx by t%d, now @%lx", ptr, b.size, b.apc, b.fpc, b.ftid, pc);
	if (b.kind != kind) failf("alloc-mismatch", "block %p allocated with kind %d freed with kind %d @%lx", ptr, b.kind, kind, pc);
	if (sized && size != b.size) failf("size-mismatch", "block %p of size %zu deallocated with size %zu @%lx", ptr, b.size, size, pc);
	if (self && g_active) range_access(p, b.size ? b.size : 1, F_WRITE | F_FREE, pc);
	b.live = 0;
	b.fpc = pc;
	b.ftid = self ? self->id : 0;
	g_live--;
	imemset(g_gran + (p - ARENA) / 8, G_FREED, (b.size + 7) / 8);
	imemset(ptr, 0xDD, b.size);
}
static void check_valid(uptr a, size_t n, bool write, uptr pc) {
	size_t off = a - ARENA;
	for (size_t g = off / 8; g <= (off + n - 1) / 8; g++) {
		u8 v = g_gran[g];
		if (LIKELY(v == 8)) continue;
		bool bad;
		if (v < 8) {
			size_t last = (off + n - 1 < g * 8 + 7) ? (off + n - 1) & 7 : 7;
			bad = last >= v;
		} else
			bad = true;
		if (bad) {
			Block* b = find_block(a);
			const char* kind = v == G_FREED ? "use-after-free" : "out-of-bounds";
			failf(kind, "%s of %zu bytes at %p @%lx; block %p size %zu allocated @%lx by t%d%s freed @%lx by t%d", write ? "write" : "read", n, (void*)a, pc,
				  b ? (void*)b->addr : nullptr, b ? b->size : 0, b ? b->apc : 0, b ? b->atid : 0, b && b->live ? " (live)" : "", b ? b->fpc : 0, b ? b->ftid : 0);
		}
	}
}

// ------------------------------------------------------------------ shadow memory
struct Entry {
	u32 clk;
	u8 tid, mask, flags, pad;
	u64 pc;
};
static const int CELL_N = 6;
struct Cell {
	u8 n, rot, sync; // sync: an atomic/lock object lives in this granule
	Entry e[CELL_N];
};
struct ShadowPage {
	u64 page;
	u32 exec;
	Cell c[512];
};
static const u32 SH_SIZE = 1 << 15;
static ShadowPage** g_shtab;
static ShadowPage* g_shcache[256];
static u8* g_pool; // mmap'd metadata pool
static size_t g_poolused, g_poolcap;
static void* meta_alloc(size_t n) {
	n = (n + 63) & ~63ull;
	if (g_poolused + n > g_poolcap) {
		g_poolcap = n > (16u << 20) ? n : (16u << 20);
		g_pool = (u8*)rawsys(SYS_mmap, 0, g_poolcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		g_poolused = 0;
	}
	void* r = g_pool + g_poolused;
	g_poolused += n;
	return r;
}
static NOINLINE ShadowPage* shadow_page_slow(u64 page) {
	u32 h = (u32)((page * 0x9E3779B97F4A7C15ull) >> 40) & (SH_SIZE - 1);
	while (g_shtab[h] && g_shtab[h]->page != page) h = (h + 1) & (SH_SIZE - 1);
	ShadowPage* sp = g_shtab[h];
	if (!sp) {
		sp = g_shtab[h] = (ShadowPage*)meta_alloc(sizeof(ShadowPage));
		sp->page = page;
		sp->exec = g_exec;
	}
	if (sp->exec != g_exec) {
		for (int i = 0; i < 512; i++) sp->c[i].n = sp->c[i].sync = 0;
		sp->exec = g_exec;
	}
	g_shcache[page & 255] = sp;
	return sp;
}
static inline Cell* cell_for(uptr a) {
	u64 page = a >> 12;
	ShadowPage* sp = g_shcache[page & 255];
	if (UNLIKELY(!sp || sp->page != page || sp->exec != g_exec)) sp = shadow_page_slow(page);
	return &sp->c[(a >> 3) & 511];
}
static void sync_void(uptr g);
static void shadow_clear(uptr a, size_t n) {
	uptr e = a + n;
	for (uptr p = a & ~7ull; p < e;) {
		u64 page = p >> 12;
		u32 h = (u32)((page * 0x9E3779B97F4A7C15ull) >> 40) & (SH_SIZE - 1);
		while (g_shtab[h] && g_shtab[h]->page != page) h = (h + 1) & (SH_SIZE - 1);
		uptr pe = (page + 1) << 12;
		if (g_shtab[h] && g_shtab[h]->exec == g_exec)
			for (; p < e && p < pe; p += 8) {
				Cell& c = g_shtab[h]->c[(p >> 3) & 511];
				c.n = 0;
				if (c.sync) sync_void(p), c.sync = 0;
			}
		p = pe;
	}
}
static const char* acc_name(u8 f) {
	if (f & F_FREE) return "free";
	if (f & F_ATOMIC) return f & F_WRITE ? "atomic write" : "atomic read";
	return f & F_WRITE ? "write" : "read";
}
static void NOINLINE report_race(uptr a, const Entry& e, u8 flags, u8 mask, uptr pc) {
	Block* b = in_arena(a) ? find_block(a) : nullptr;
	failf("race", "data race at %p: %s by t%d @%lx vs %s by t%d @%lx (bytes %02x/%02x)%s", (void*)a, acc_name(flags), self->id, pc, acc_name(e.flags), e.tid,
		  (unsigned long)e.pc, mask, e.mask, b ? " in heap block" : "");
}
// one granule
static inline void cell_access(uptr a, u8 mask, u8 flags, uptr pc, Thr* t) {
	Cell* c = cell_for(a);
	if (UNLIKELY(c->sync && (flags & (F_WRITE | F_ATOMIC)) == F_WRITE)) {
		sync_void(a);
		c->sync = 0;
	}
	u32 myclk = t->vc.c[t->id];
	int n = c->n, w = 0;
	bool store = true;
	for (int i = 0; i < n; i++) {
		Entry& e = c->e[i];
		bool same = e.tid == t->id;
		if (same) {
			if (e.clk == myclk && (e.mask & mask) == mask && ((e.flags & F_WRITE) || !(flags & F_WRITE)) && (!(e.flags & F_ATOMIC) || (flags & F_ATOMIC))) {
				// an equal or stronger access of this epoch is already recorded
				if ((e.flags & F_ATOMIC) == (flags & F_ATOMIC) || !(e.flags & F_ATOMIC)) store = false;
			}
		} else if ((e.mask & mask) && ((e.flags | flags) & F_WRITE) && !((e.flags & F_ATOMIC) && (flags & F_ATOMIC))) {
			if (e.clk > t->vc.c[e.tid]) report_race(a, e, flags, mask, pc);
		}
		bool ordered = same || e.clk <= t->vc.c[e.tid];
		bool subsumed = store && ordered && (e.mask & ~mask) == 0 && ((flags & F_WRITE) || !(e.flags & F_WRITE)) && (!(flags & F_ATOMIC) || (e.flags & F_ATOMIC));
		if (!subsumed) {
			if (w != i) c->e[w] = e;
			w++;
		}
	}
	if (store) {
		if (w == CELL_N) w = (c->rot = (c->rot + 1) % CELL_N);
		else c->n = w + 1;
		if (c->n < w + 1) c->n = w + 1;
		c->e[w] = Entry{myclk, (u8)t->id, mask, flags, 0, pc};
		if (w + 1 > c->n) c->n = w + 1;
	} else
		c->n = w;
	// note: when evicting, n stays CELL_N
}
static void range_access(uptr a, size_t n, u8 flags, uptr pc) {
	Thr* t = self;
	uptr e = a + n;
	while (a < e) {
		uptr g = a & ~7ull;
		unsigned lo = a - g, hi = (e - g) < 8 ? (e - g) : 8;
		u8 mask = (u8)((((1u << hi) - 1) >> lo) << lo);
		cell_access(g, mask, flags, pc, t);
		a = g + 8;
	}
	T_races_checked++;
}
static void sched_point(int kind, uptr obj, uptr pc);
static inline void access(uptr a, size_t n, u8 flags, uptr pc) {
	Thr* t = self;
	if (UNLIKELY(!g_active || !t || t->in_rt || t->ignore)) return;
	T_plain++;
	if (UNLIKELY(M.plain_den && RS.one_in(M.plain_den))) sched_point(0, a, pc);
	if (in_arena(a)) check_valid(a, n, flags & F_WRITE, pc);
	t->in_rt++;
	if (LIKELY(((a & 7) + n) <= 8)) cell_access(a & ~7ull, (u8)(((1u << n) - 1) << (a & 7)), flags, pc, t);
	else range_access(a, n, flags, pc);
	t->in_rt--;
}

// ------------------------------------------------------------------ sync objects
static const int HIST = 8;
struct Hist {
	u64 val;
	u32 clk;
	u8 tid;
	bool has_rel;
	u64 idx;
	VC rel;
};
struct ReadRec { // newest read of a thread: index, epoch, and index read in an earlier epoch
	u64 idx, prev;
	u32 clk;
};
struct SyncObj {
	uptr addr;
	u32 exec;
	u32 ord; // creation order in the execution, for signatures
	VC rel, rrel;
	bool has_rel;
	// atomic history for stale reads
	Hist* hist;
	u64 hn;		// number of stores recorded
	u64 floor_; // nothing below may be read by anybody
	ReadRec lastread[MAXT];
	u8 size;
	u8 stalecnt[MAXT];
};
static const u32 SO_SIZE = 1 << 14;
static SyncObj** g_so;
static u32 g_soord;
static SyncObj* sync_for(uptr a) {
	u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 42) & (SO_SIZE - 1);
	while (g_so[h] && g_so[h]->addr != a) {
		if (g_so[h]->exec != g_exec) break; // stale slot of an older execution: take over
		h = (h + 1) & (SO_SIZE - 1);
	}
	SyncObj* s = g_so[h];
	if (!s) s = g_so[h] = (SyncObj*)meta_alloc(sizeof(SyncObj));
	if (s->exec != g_exec || s->addr != a) {
		Hist* keep = s->hist;
		imemset(s, 0, sizeof *s);
		s->hist = keep;
		s->addr = a;
		s->exec = g_exec;
		s->ord = ++g_soord;
	}
	return s;
}
// A plain write to (or unmapping of) a granule ends the life of the atomics and locks in it.
static void sync_void(uptr g) {
	for (int i = 0; i < 8; i++) {
		uptr a = g + i;
		u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 42) & (SO_SIZE - 1);
		while (g_so[h] && g_so[h]->addr != a && g_so[h]->exec == g_exec) h = (h + 1) & (SO_SIZE - 1);
		SyncObj* s = g_so[h];
		if (s && s->addr == a && s->exec == g_exec) {
			s->has_rel = false;
			imemset(&s->rrel, 0, sizeof s->rrel);
			s->hn = s->floor_ = 0;
			imemset(s->lastread, 0, sizeof s->lastread);
		}
	}
}
// Taking over slots of older executions may break probe chains only for entries of older
// executions, which are dead anyway; but an entry of this execution could sit behind a slot that
// was stale when probed and is now occupied, which is fine (probing continues past occupied slots).

static inline void bump(Thr* t) {
	t->vc.c[t->id]++;
	t->view.c[t->id] = t->vc.c[t->id];
}
static inline void acquire_vc(Thr* t, const VC& v) {
	vc_join(t->vc, v);
	vc_join(t->view, v);
}
static VC g_scvc;
static inline void sc_sync(Thr* t) {
	if (!M.stale_den) return;
	vc_join(t->view, g_scvc);
	g_scvc = t->view;
}

// ------------------------------------------------------------------ scheduler
static void sem_wait_(Thr* t) {
	while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) rawsys(SYS_futex, (long)&t->sem, FUTEX_WAIT_PRIVATE, 0, 0);
	__atomic_store_n(&t->sem, 0, __ATOMIC_RELAXED);
}
static void sem_post_(Thr* t) {
	__atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
	rawsys(SYS_futex, (long)&t->sem, FUTEX_WAKE_PRIVATE, 1);
}
static void switch_to(Thr* n) {
	Thr* t = self;
	if (n == t) return;
	g_switches++;
	g_sig = mix(g_sig, ((u64)n->id << 32) ^ t->id);
	t->streak = 0;
	g_cur = n;
	sem_post_(n);
	sem_wait_(t);
}
static void wake_timers() {
	for (int i = 0; i < g_nthr; i++) {
		Thr& x = g_thr[i];
		if (x.state != ST_RUN && x.state != ST_DONE && x.state != ST_UNUSED && x.deadline && x.deadline <= g_vtime) {
			x.timedout = true;
			x.deadline = 0;
			x.state = ST_RUN;
			x.obj = nullptr;
		}
	}
}
static u64 min_deadline() {
	u64 m = 0;
	for (int i = 0; i < g_nthr; i++) {
		Thr& x = g_thr[i];
		if (x.state != ST_RUN && x.state != ST_DONE && x.state != ST_UNUSED && x.deadline && (!m || x.deadline < m)) m = x.deadline;
	}
	return m;
}
static int runnable_count(int* out, int except) {
	int n = 0;
	for (int i = 0; i < g_nthr; i++)
		if (g_thr[i].state == ST_RUN && i != except) out[n++] = i;
	return n;
}
static Thr* pick(int* list, int n) {
	if (M.strategy == S_PCT) {
		int b = list[0];
		for (int i = 1; i < n; i++)
			if (g_thr[list[i]].prio > g_thr[b].prio) b = list[i];
		return &g_thr[b];
	}
	if (M.strategy == S_BURST && n > 1 && M.burst_left) {
		int k = RS.below(n);
		if (list[k] == M.burst_victim) k = (k + 1) % n;
		return &g_thr[list[k]];
	}
	return &g_thr[list[RS.below(n)]];
}
static char g_blockinfo[4096];
static void describe_threads() {
	int n = 0;
	for (int i = 0; i < g_nthr; i++) {
		Thr& x = g_thr[i];
		if (x.state == ST_DONE || x.state == ST_UNUSED) continue;
		n += snprintf(g_blockinfo + n, sizeof g_blockinfo - n - 1, " t%d:%s(%p)@%lx", i, state_name[x.state], x.obj, x.blockpc);
		if (n > 3500) break;
	}
}
// called with self not runnable
static void block_and_switch() {
	Thr* t = self;
	for (;;) {
		int list[MAXT];
		int n = runnable_count(list, -1);
		if (n) {
			Thr* nx = pick(list, n);
			if (nx == t) return;
			switch_to(nx);
			return;
		}
		// nobody runnable: jump time
		u64 m = min_deadline();
		if (!m) {
			describe_threads();
			failf("deadlock", "no thread can run:%s", g_blockinfo);
		}
		if (++g_idlejumps > 600) {
			describe_threads();
			failf("hang", "only periodic timeouts happen any more:%s", g_blockinfo);
		}
		if (m > g_vtime) g_vtime = m;
		if (M.leap_den && RS.one_in(4)) g_vtime += RS.below(3000000); // overslept
		wake_timers();
	}
}
static void maybe_perturb() {
	if (M.spurious_den && RS.one_in(M.spurious_den)) {
		int l[MAXT], n = 0;
		for (int i = 0; i < g_nthr; i++)
			if (g_thr[i].state == ST_COND || g_thr[i].state == ST_FUTEX) l[n++] = i;
		if (n) {
			Thr& x = g_thr[l[RS.below(n)]];
			x.state = ST_RUN;
			x.obj = nullptr;
			x.deadline = 0;
			x.timedout = false;
			x.signaled = false;
			T_spur++;
		}
	}
	if (M.leap_den && RS.one_in(M.leap_den)) {
		u64 m = min_deadline();
		if (m) {
			if (m > g_vtime) g_vtime = m;
			if (RS.one_in(3)) g_vtime += RS.below(2000000);
			wake_timers();
			T_leap++;
		}
	}
}
enum { P_PLAIN = 0, P_ATOMIC, P_SYNC, P_YIELD };
static void sched_point(int kind, uptr obj, uptr pc) {
	Thr* t = self;
	(void)obj;
	(void)pc;
	t->in_rt++;
	g_steps++;
	g_vtime += 20;
	T_points++;
	if (UNLIKELY(g_steps > g_step_budget)) {
		describe_threads();
		failf("livelock", "step budget exceeded:%s", g_blockinfo);
	}
	maybe_perturb();
	int list[MAXT];
	int n = runnable_count(list, t->id);
	if (n) {
		t->streak++;
		bool sw = false;
		Thr* nx = nullptr;
		if (kind == P_YIELD) {
			if (M.strategy == S_PCT) {
				t->prio = (u64)(1000000 - ++g_lowprio);
				list[n++] = t->id;
				nx = pick(list, n);
				sw = nx != t;
			} else if (!RS.one_in(4) || t->streak > 40)
				sw = true;
		} else if (M.strategy == S_PCT) {
			for (int i = 0; i < M.pct_d; i++)
				if (M.changes[i] == g_steps) t->prio = (u64)(1000000 - ++g_lowprio);
			if (t->streak > 500) {
				t->prio = (u64)(1000000 - ++g_lowprio);
				t->streak = 0;
			}
			list[n++] = t->id;
			nx = pick(list, n);
			sw = nx != t;
		} else if (M.strategy == S_BURST) {
			if (M.burst_left) {
				M.burst_left--;
				if (t->id == M.burst_victim) sw = true;
				else sw = RS.one_in(M.switch_den);
			} else {
				if (RS.one_in(M.switch_den * 2)) {
					M.burst_victim = t->id;
					M.burst_left = 5 + RS.below(80);
					sw = true;
				} else
					sw = RS.one_in(M.switch_den);
			}
		} else
			sw = RS.one_in(M.switch_den);
		if (t->streak > 3000) sw = true;
		if (sw) {
			if (!nx) nx = pick(list, n);
			if (nx != t) switch_to(nx);
		}
	} else if (kind == P_YIELD) {
		// spinning alone: let time pass so that timed waiters can help
		u64 m = min_deadline();
		if (m && t->streak++ > 50) {
			if (m > g_vtime) g_vtime = m;
			wake_timers();
			t->streak = 0;
			if (++g_idlejumps > 5000) failf("hang", "spinning while only periodic timeouts happen");
		}
	}
	t->in_rt--;
}

// ------------------------------------------------------------------ atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

struct AtomicCtx {
	Thr* t;
	SyncObj* s;
};
static bool atomic_enter(uptr a, size_t n, bool write, uptr pc, AtomicCtx& c) {
	Thr* t = self;
	if (UNLIKELY(!g_active || !t || t->in_rt || t->ignore)) return false;
	sched_point(P_ATOMIC, a, pc);
	T_atomic++;
	t->in_rt++;
	if (in_arena(a)) check_valid(a, n, write, pc);
	c.t = t;
	c.s = sync_for(a);
	cell_for(a & ~7ull)->sync = 1;
	g_sig = mix(g_sig, ((u64)t->id << 40) ^ ((u64)c.s->ord << 8) ^ write);
	return true;
}
static inline void atomic_race(uptr a, size_t n, u8 flags, uptr pc, Thr* t) {
	if (LIKELY(((a & 7) + n) <= 8)) cell_access(a & ~7ull, (u8)(((1u << n) - 1) << (a & 7)), flags, pc, t);
	else range_access(a, n, flags, pc);
}
// memory order effects of a load that read a store with release clock rel (if any)
static void load_effect(Thr* t, bool has_rel, const VC& rel, int mo) {
	if (has_rel) {
		if (is_acq(mo)) acquire_vc(t, rel);
		else vc_join(t->acqf, rel);
	}
	if (mo == __ATOMIC_SEQ_CST) sc_sync(t);
}
static Hist& hist_at(SyncObj* s, u64 i) { return s->hist[i % HIST]; }
static void note_read(SyncObj* s, Thr* t, u64 idx) {
	ReadRec& r = s->lastread[t->id];
	u32 clk = t->vc.c[t->id];
	if (r.clk != clk) {
		r.prev = r.idx;
		r.clk = clk;
	}
	if (idx > r.idx) r.idx = idx;
}
static void hist_push(SyncObj* s, Thr* t, u64 val) {
	if (!M.stale_den) return;
	if (!s->hist) s->hist = (Hist*)meta_alloc(sizeof(Hist) * HIST);
	Hist& h = hist_at(s, s->hn);
	h.val = val;
	h.clk = t->vc.c[t->id];
	h.tid = t->id;
	h.has_rel = s->has_rel;
	h.idx = s->hn;
	if (s->has_rel) h.rel = s->rel;
	s->hn++;
	if (s->hn > HIST && s->floor_ < s->hn - HIST) s->floor_ = s->hn - HIST;
}
// effect of a store/RMW on the location's release clock. rmw: continues a release sequence
static void store_effect(Thr* t, SyncObj* s, int mo, bool rmw) {
	if (mo == __ATOMIC_SEQ_CST) sc_sync(t);
	if (is_rel(mo)) {
		if (rmw && s->has_rel) vc_join(s->rel, t->vc);
		else s->rel = t->vc;
		s->has_rel = true;
	} else if (t->has_relf) {
		if (rmw && s->has_rel) vc_join(s->rel, t->relf);
		else s->rel = t->relf;
		s->has_rel = true;
	} else if (!rmw)
		s->has_rel = false;
}
template<class T>
static T a_load(const volatile T* p, int mo, uptr pc) {
	AtomicCtx c;
	if (!atomic_enter((uptr)p, sizeof(T), false, pc, c)) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
	atomic_race((uptr)p, sizeof(T), F_ATOMIC, pc, c.t);
	T v = *p;
	SyncObj* s = c.s;
	Thr* t = c.t;
	if (M.stale_den && s->hn) {
		if ((T)hist_at(s, s->hn - 1).val != v) {
			s->hn = 0; // written by non-atomic initialisation: history is void
			s->floor_ = 0;
			imemset(s->lastread, 0, sizeof s->lastread);
		} else {
			if (mo == __ATOMIC_SEQ_CST) sc_sync(t);
			u64 lo = s->floor_, last = s->hn - 1;
			for (int i = 0; i < g_nthr; i++) { // read-read coherence
				const ReadRec& r = s->lastread[i];
				u64 b = r.clk <= t->view.c[i] ? r.idx : r.prev;
				if (b > lo) lo = b;
			}
			for (u64 i = last; i > lo; i--) {
				Hist& h = hist_at(s, i);
				if (h.clk <= t->view.c[h.tid]) {
					lo = i;
					break;
				}
			}
			u64 pickidx = last;
			if (lo < last && s->stalecnt[t->id] < 3 && RS.one_in(M.stale_den)) {
				pickidx = lo + RS.below(last - lo + 1);
				if (pickidx != last) {
					T_stale++;
					s->stalecnt[t->id]++;
				}
			} else
				s->stalecnt[t->id] = 0;
			note_read(s, t, pickidx);
			Hist& h = hist_at(s, pickidx);
			load_effect(t, h.has_rel, h.rel, mo);
			t->in_rt--;
			return (T)h.val;
		}
	}
	load_effect(t, s->has_rel, s->rel, mo);
	t->in_rt--;
	return v;
}
static void hist_sync(SyncObj* s, u64 cur, u64 mask) {
	// if a non-atomic write happened in between, the history is void
	if (M.stale_den && s->hn && (hist_at(s, s->hn - 1).val & mask) != (cur & mask)) {
		s->hn = 0;
		s->floor_ = 0;
		imemset(s->lastread, 0, sizeof s->lastread);
	}
	if (M.stale_den && s->hn == 0) {
		// seed the history with the current value, visible to everybody
		if (!s->hist) s->hist = (Hist*)meta_alloc(sizeof(Hist) * HIST);
		Hist& h = hist_at(s, 0);
		h.val = cur;
		h.clk = 0;
		h.tid = 0;
		h.has_rel = s->has_rel;
		if (s->has_rel) h.rel = s->rel;
		h.idx = 0;
		s->hn = 1;
	}
}
template<class T>
static void a_store(volatile T* p, T v, int mo, uptr pc) {
	AtomicCtx c;
	if (!atomic_enter((uptr)p, sizeof(T), true, pc, c)) {
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST);
		return;
	}
	atomic_race((uptr)p, sizeof(T), F_ATOMIC | F_WRITE, pc, c.t);
	hist_sync(c.s, (u64)(T)*p, (u64)(T)~(T)0);
	store_effect(c.t, c.s, mo, false);
	*p = v;
	hist_push(c.s, c.t, (u64)v);
	if (is_rel(mo) || c.t->has_relf || M.stale_den) bump(c.t);
	c.t->in_rt--;
}
template<class T, class F>
static T a_rmw(volatile T* p, F f, int mo, uptr pc) {
	AtomicCtx c;
	if (!atomic_enter((uptr)p, sizeof(T), true, pc, c)) {
		T old = __atomic_load_n(p, __ATOMIC_RELAXED);
		while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_RELAXED)) {}
		return old;
	}
	atomic_race((uptr)p, sizeof(T), F_ATOMIC | F_WRITE, pc, c.t);
	T old = *p;
	hist_sync(c.s, (u64)old, (u64)(T)~(T)0);
	load_effect(c.t, c.s->has_rel, c.s->rel, mo);
	store_effect(c.t, c.s, mo, true);
	*p = f(old);
	hist_push(c.s, c.t, (u64)*p);
	bump(c.t);
	c.t->in_rt--;
	return old;
}
template<class T>
static int a_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, uptr pc) {
	AtomicCtx c;
	if (!atomic_enter((uptr)p, sizeof(T), true, pc, c)) return __atomic_compare_exchange_n(p, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
	T old = *p;
	bool ok = old == *exp;
	if (ok && weak && M.weak_den && RS.one_in(M.weak_den)) {
		ok = false;
		T_weakfail++;
	}
	atomic_race((uptr)p, sizeof(T), ok ? F_ATOMIC | F_WRITE : F_ATOMIC, pc, c.t);
	hist_sync(c.s, (u64)old, (u64)(T)~(T)0);
	if (ok) {
		load_effect(c.t, c.s->has_rel, c.s->rel, mo);
		store_effect(c.t, c.s, mo, true);
		*p = des;
		hist_push(c.s, c.t, (u64)des);
		bump(c.t);
	} else {
		load_effect(c.t, c.s->has_rel, c.s->rel, fmo);
		if (M.stale_den) note_read(c.s, c.t, c.s->hn - 1);
		*exp = old;
	}
	c.t->in_rt--;
	return ok;
}
static void a_fence(int mo, uptr pc) {
	Thr* t = self;
	if (!g_active || !t || t->in_rt || t->ignore) {
		__atomic_thread_fence(__ATOMIC_SEQ_CST);
		return;
	}
	sched_point(P_ATOMIC, 0, pc);
	if (mo == __ATOMIC_SEQ_CST) sc_sync(t);
	if (is_acq(mo)) acquire_vc(t, t->acqf);
	if (is_rel(mo)) {
		t->relf = t->vc;
		t->has_relf = true;
		bump(t);
	}
}
typedef u8 a8;
typedef u16 a16;
typedef u32 a32;
typedef u64 a64;
#define ATOMICS(N)                                                                                                                                             \
	extern "C" a##N __tsan_atomic##N##_load(const volatile a##N* p, int mo) { return a_load<a##N>(p, mo, PC()); }                                               \
	extern "C" void __tsan_atomic##N##_store(volatile a##N* p, a##N v, int mo) { a_store<a##N>(p, v, mo, PC()); }                                               \
	extern "C" a##N __tsan_atomic##N##_exchange(volatile a##N* p, a##N v, int mo) { return a_rmw<a##N>(p, [v](a##N) -> a##N { return v; }, mo, PC()); }          \
	extern "C" a##N __tsan_atomic##N##_fetch_add(volatile a##N* p, a##N v, int mo) { return a_rmw<a##N>(p, [v](a##N o) -> a##N { return o + v; }, mo, PC()); }   \
	extern "C" a##N __tsan_atomic##N##_fetch_sub(volatile a##N* p, a##N v, int mo) { return a_rmw<a##N>(p, [v](a##N o) -> a##N { return o - v; }, mo, PC()); }   \
	extern "C" a##N __tsan_atomic##N##_fetch_and(volatile a##N* p, a##N v, int mo) { return a_rmw<a##N>(p, [v](a##N o) -> a##N { return o & v; }, mo, PC()); }   \
	extern "C" a##N __tsan_atomic##N##_fetch_or(volatile a##N* p, a##N v, int mo) { return a_rmw<a##N>(p, [v](a##N o) -> a##N { return o | v; }, mo, PC()); }    \
	extern "C" a##N __tsan_atomic##N##_fetch_xor(volatile a##N* p, a##N v, int mo) { return a_rmw<a##N>(p, [v](a##N o) -> a##N { return o ^ v; }, mo, PC()); }   \
	extern "C" a##N __tsan_atomic##N##_fetch_nand(volatile a##N* p, a##N v, int mo) { return a_rmw<a##N>(p, [v](a##N o) -> a##N { return ~(o & v); }, mo, PC()); } \
	extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile a##N* p, a##N* e, a##N d, int mo, int fmo) { return a_cas<a##N>(p, e, d, mo, fmo, false, PC()); } \
	extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile a##N* p, a##N* e, a##N d, int mo, int fmo) { return a_cas<a##N>(p, e, d, mo, fmo, true, PC()); } \
	extern "C" a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N* p, a##N e, a##N d, int mo, int fmo) {                                                \
		a_cas<a##N>(p, &e, d, mo, fmo, false, PC());                                                                                                            \
		return e;                                                                                                                                              \
	}
ATOMICS(8)
ATOMICS(16)
ATOMICS(32)
ATOMICS(64)
extern "C" void __tsan_atomic_thread_fence(int mo) { a_fence(mo, PC()); }
extern "C" void __tsan_atomic_signal_fence(int) {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
#define RW(N)                                                                                     \
	extern "C" void __tsan_read##N(void* a) { access((uptr)a, N, 0, PC()); }                       \
	extern "C" void __tsan_write##N(void* a) { access((uptr)a, N, F_WRITE, PC()); }                \
	extern "C" void __tsan_unaligned_read##N(void* a) { access((uptr)a, N, 0, PC()); }             \
	extern "C" void __tsan_unaligned_write##N(void* a) { access((uptr)a, N, F_WRITE, PC()); }      \
	extern "C" void __tsan_volatile_read##N(void* a) { access((uptr)a, N, 0, PC()); }              \
	extern "C" void __tsan_volatile_write##N(void* a) { access((uptr)a, N, F_WRITE, PC()); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
extern "C" void __tsan_read_range(void* a, size_t n) {
	if (n) access((uptr)a, n, 0, PC());
}
extern "C" void __tsan_write_range(void* a, size_t n) {
	if (n) access((uptr)a, n, F_WRITE, PC());
}
extern "C" void __tsan_vptr_update(void** a, void* nv) {
	if (self && g_active && !self->in_rt && !self->ignore && in_arena((uptr)a)) check_valid((uptr)a, 8, true, PC());
	if (*a != nv) access((uptr)a, 8, F_WRITE, PC());
}
extern "C" void __tsan_vptr_read(void** a) { access((uptr)a, 8, 0, PC()); }

// TSan fiber API (used by code under test only if it believes TSan is active)
// The happens-before relation is the one of the threads; only the life cycle of fibers is followed.
static const uptr TFIB = 0xf1be00000000ull;
static const u32 MAXTFIB = 1 << 14;
static u8 g_tfib[MAXTFIB]; // 0 unused, 1 live, 2 destroyed
static u32 g_ntfib, g_livetfib;
static u8* tfib(void* p) {
	uptr k = ((uptr)p - TFIB) / 16;
	if (k >= g_ntfib) failf("oracle", "TSan told about a fiber %p that it does not know", p);
	if (g_tfib[k] != 1) failf("oracle", "TSan told about a destroyed fiber");
	return &g_tfib[k];
}
extern "C" void* __tsan_get_current_fiber() { return self && self->fiber ? self->fiber : self; }
extern "C" void* __tsan_create_fiber(unsigned) {
	if (!user_ctx()) return (void*)1;
	RtScope rs;
	if (g_ntfib >= MAXTFIB) failf("harness", "too many fibers");
	g_tfib[g_ntfib] = 1;
	g_livetfib++;
	return (void*)(TFIB + 16 * (uptr)g_ntfib++);
}
extern "C" void __tsan_destroy_fiber(void* f) {
	if (!user_ctx()) return;
	RtScope rs;
	if (self->fiber == f) failf("oracle", "running fiber destroyed");
	*tfib(f) = 2;
	g_livetfib--;
}
extern "C" void __tsan_switch_to_fiber(void* f, unsigned) {
	if (!user_ctx()) return;
	RtScope rs;
	if (f == self) {
		self->fiber = nullptr;
		return;
	}
	for (int i = 0; i < g_nthr; i++) {
		if (f == &g_thr[i]) failf("oracle", "thread %d switched to the stack of thread %d", self->id, i);
		if (g_thr[i].fiber == f) failf("oracle", "thread %d entered a fiber that runs on thread %d", self->id, i);
	}
	tfib(f);
	self->fiber = f;
}
size_t vrt_live_fibers() { return g_livetfib; }
extern "C" void __tsan_acquire(void*) {}
extern "C" void __tsan_release(void*) {}

// ------------------------------------------------------------------ malloc family
static inline uptr callerpc() { return 0; }
extern "C" void* malloc(size_t n) {
	if (user_ctx()) return arena_alloc(n, 16, K_MALLOC, PC());
	return __libc_malloc(n);
}
extern "C" void free(void* p) {
	if (!p) return;
	if (in_arena((uptr)p)) {
		if (g_active) arena_free(p, K_MALLOC, 0, false, PC());
		return;
	}
	__libc_free(p);
}
extern "C" void* calloc(size_t a, size_t b) {
	if (user_ctx()) {
		void* p = arena_alloc(a * b, 16, K_MALLOC, PC());
		RtScope rs;
		imemset(p, 0, a * b);
		return p;
	}
	return __libc_calloc(a, b);
}
extern "C" void* realloc(void* p, size_t n) {
	if (p && in_arena((uptr)p)) {
		void* q = malloc(n);
		RtScope rs;
		Block* b = find_block((uptr)p);
		imemcpy(q, p, b->size < n ? b->size : n);
		self->in_rt--;
		free(p);
		self->in_rt++;
		return q;
	}
	if (!p) return malloc(n);
	return __libc_realloc(p, n);
}
extern "C" void* memalign(size_t al, size_t n) {
	if (user_ctx()) return arena_alloc(n, al, K_MALLOC, PC());
	return __libc_memalign(al, n);
}
extern "C" void* aligned_alloc(size_t al, size_t n) {
	if (user_ctx()) return arena_alloc(n, al, K_MALLOC, PC());
	return __libc_memalign(al, n);
}
extern "C" int posix_memalign(void** out, size_t al, size_t n) {
	*out = user_ctx() ? arena_alloc(n, al, K_MALLOC, PC()) : __libc_memalign(al, n);
	return 0;
}
static void* op_new(size_t n, size_t al, int kind, uptr pc) {
	if (user_ctx()) return arena_alloc(n, al, kind, pc);
	void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
	if (!p) abort();
	return p;
}
static void op_del(void* p, int kind, size_t n, bool sized, uptr pc) {
	if (!p) return;
	if (in_arena((uptr)p)) {
		if (g_active) arena_free(p, kind, n, sized, pc);
		return;
	}
	__libc_free(p);
}
namespace std {
	enum class align_val_t : size_t;
	struct nothrow_t;
} // namespace std
void* operator new(size_t n) { return op_new(n, 16, K_NEW, PC()); }
void* operator new[](size_t n) { return op_new(n, 16, K_NEWARR, PC()); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, K_NEW, PC()); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, K_NEWARR, PC()); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, K_NEW, PC()); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, K_NEWARR, PC()); }
void operator delete(void* p) noexcept { op_del(p, K_NEW, 0, false, PC()); }
void operator delete[](void* p) noexcept { op_del(p, K_NEWARR, 0, false, PC()); }
void operator delete(void* p, size_t n) noexcept { op_del(p, K_NEW, n, true, PC()); }
void operator delete[](void* p, size_t n) noexcept { op_del(p, K_NEWARR, n, true, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p, K_NEW, 0, false, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p, K_NEWARR, 0, false, PC()); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { op_del(p, K_NEW, n, true, PC()); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { op_del(p, K_NEWARR, n, true, PC()); }

// ------------------------------------------------------------------ mem functions
static inline void mem_check(const void* a, size_t n, u8 flags, uptr pc) {
	if (!n || !g_active) return;
	access((uptr)a, n, flags, pc);
}
extern "C" __attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
	if (UNLIKELY(g_active)) {
		mem_check(s, n, 0, PC());
		mem_check(d, n, F_WRITE, PC());
	}
	void* r = d;
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	return r;
}
extern "C" __attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memmove(void* d, const void* s, size_t n) {
	if (UNLIKELY(g_active)) {
		mem_check(s, n, 0, PC());
		mem_check(d, n, F_WRITE, PC());
	}
	void* r = d;
	if ((uptr)d <= (uptr)s || (uptr)d >= (uptr)s + n) {
		asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	} else {
		char* dd = (char*)d + n - 1;
		const char* ss = (const char*)s + n - 1;
		asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
	}
	return r;
}
extern "C" __attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memset(void* d, int v, size_t n) {
	if (UNLIKELY(g_active)) mem_check(d, n, F_WRITE, PC());
	void* r = d;
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
	return r;
}
extern "C" void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) {
	long r = rawsys(SYS_mmap, (long)a, (long)n, prot, fl, fd, off);
	if (r < 0 && r > -4096) {
		errno = (int)-r;
		return MAP_FAILED;
	}
	if (user_ctx()) {
		RtScope rs;
		shadow_clear((uptr)r, n);
		g_live_maps++;
	}
	return (void*)r;
}
static const u32 MAXQUAR = 512;
static struct {
	uptr a;
	size_t n;
} g_quar[MAXQUAR];
static u32 g_nquar;
static void quar_release() {
	for (u32 i = 0; i < g_nquar; i++) rawsys(SYS_munmap, (long)g_quar[i].a, (long)g_quar[i].n);
	g_nquar = 0;
}
extern "C" int munmap(void* a, size_t n) {
	if (user_ctx()) {
		RtScope rs;
		// unmapping is a write to everything still tracked there
		for (uptr p = (uptr)a; p < (uptr)a + n; p += 4096) {
			u64 page = p >> 12;
			u32 h = (u32)((page * 0x9E3779B97F4A7C15ull) >> 40) & (SH_SIZE - 1);
			while (g_shtab[h] && g_shtab[h]->page != page) h = (h + 1) & (SH_SIZE - 1);
			if (g_shtab[h] && g_shtab[h]->exec == g_exec) range_access(p, 4096, F_WRITE | F_FREE, PC());
		}
		shadow_clear((uptr)a, n);
		g_live_maps--;
	}
	if (user_ctx() && g_nquar < MAXQUAR) { // kept inaccessible until the end of the execution
		RtScope rs;
		long r = rawsys(SYS_mmap, (long)a, (long)n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
		if (r == (long)a) {
			g_quar[g_nquar].a = (uptr)a;
			g_quar[g_nquar++].n = n;
			return 0;
		}
	}
	long r = rawsys(SYS_munmap, (long)a, (long)n);
	if (r < 0) {
		errno = (int)-r;
		return -1;
	}
	return 0;
}

// ------------------------------------------------------------------ pthread mutex
static inline bool managed() {
	Thr* t = self;
	return g_active && t && !t->in_rt;
}
static void touch_obj(const void* p, size_t n, uptr pc) {
	if (in_arena((uptr)p)) check_valid((uptr)p, n, true, pc);
	// a sync object is used atomically: it conflicts with plain construction/destruction/free
	Thr* t = self;
	t->in_rt++;
	range_access((uptr)p, n, F_ATOMIC | F_WRITE, pc);
	cell_for((uptr)p & ~7ull)->sync = 1;
	t->in_rt--;
}
static void wake_all(State st, void* obj) {
	for (int i = 0; i < g_nthr; i++)
		if (g_thr[i].state == st && g_thr[i].obj == obj) {
			g_thr[i].state = ST_RUN;
			g_thr[i].obj = nullptr;
		}
}
static void block_on(State st, void* obj, u64 deadline, uptr pc) {
	Thr* t = self;
	t->in_rt++;
	t->state = st;
	t->obj = obj;
	t->deadline = deadline;
	t->timedout = false;
	t->signaled = false;
	t->blockpc = pc;
	block_and_switch();
	t->obj = nullptr;
	t->deadline = 0;
	t->in_rt--;
}
#define MLOCK(m) ((m)->__data.__lock)
#define MCNT(m) ((m)->__data.__count)
#define MKIND(m) ((m)->__data.__kind & 3)
static int mutex_lock(pthread_mutex_t* m, bool tryonly, u64 deadline, uptr pc, bool point = true) {
	Thr* t = self;
	if (point) sched_point(P_SYNC, (uptr)m, pc);
	T_sync++;
	for (;;) {
		touch_obj(m, sizeof *m, pc);
		if (MLOCK(m) == 0) break;
		if (MLOCK(m) == t->id + 1 && MKIND(m) == PTHREAD_MUTEX_RECURSIVE) {
			MCNT(m)++;
			return 0;
		}
		if (tryonly) return EBUSY;
		block_on(ST_MUTEX, m, deadline, pc);
		if (deadline && t->timedout && MLOCK(m) != 0) return ETIMEDOUT;
	}
	MLOCK(m) = t->id + 1;
	MCNT(m) = 1;
	SyncObj* s = sync_for((uptr)m);
	g_sig = mix(g_sig, ((u64)t->id << 40) ^ ((u64)s->ord << 8) ^ 0x77);
	if (s->has_rel) acquire_vc(t, s->rel);
	return 0;
}
static int mutex_unlock(pthread_mutex_t* m, uptr pc, bool point = true) {
	Thr* t = self;
	touch_obj(m, sizeof *m, pc);
	T_sync++;
	if (MLOCK(m) != t->id + 1) failf("mutex-misuse", "unlock of mutex %p not owned by t%d (state %d) @%lx", (void*)m, t->id, MLOCK(m), pc);
	if (--MCNT(m)) return 0;
	SyncObj* s = sync_for((uptr)m);
	s->rel = t->vc;
	s->has_rel = true;
	bump(t);
	MLOCK(m) = 0;
	wake_all(ST_MUTEX, m);
	if (point) sched_point(P_SYNC, (uptr)m, pc);
	return 0;
}
template<class F>
static F real(const char* name) {
	return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(name, ...)                                                   \
	static __typeof__(&name) rf;                                           \
	if (!rf) rf = real<__typeof__(&name)>(#name);                          \
	return rf(__VA_ARGS__)
// Inside the runtime or outside executions the process is effectively single threaded with respect
// to these objects, so plain bookkeeping suffices.
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_mutex_lock, m); }
	return mutex_lock(m, false, 0, PC());
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_mutex_trylock, m); }
	return mutex_lock(m, true, 0, PC());
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_mutex_unlock, m); }
	return mutex_unlock(m, PC());
}
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
	REAL(pthread_mutex_init, m, a);
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
	if (managed() && MLOCK(m)) failf("mutex-misuse", "destroying locked mutex %p @%lx", (void*)m, PC());
	return 0;
}
static u64 abs_to_v(int clk, const struct timespec* ts) {
	(void)clk;
	return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
}
static u64 to_deadline(u64 v) { return v <= g_vtime ? (g_vtime ? g_vtime : 1) : v; }
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept {
	if (!managed()) { REAL(pthread_mutex_timedlock, m, ts); }
	return mutex_lock(m, false, to_deadline(abs_to_v(0, ts)), PC());
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) noexcept {
	if (!managed()) { REAL(pthread_mutex_clocklock, m, clk, ts); }
	return mutex_lock(m, false, to_deadline(abs_to_v(clk, ts)), PC());
}
// Annotations libstdc++ makes for its own locks (std::atomic<std::shared_ptr>).
extern "C" void __tsan_mutex_create(void*, unsigned) {}
extern "C" void __tsan_mutex_destroy(void*, unsigned) {}
extern "C" void __tsan_mutex_pre_lock(void*, unsigned) {}
extern "C" void __tsan_mutex_pre_signal(void*, unsigned) {}
extern "C" void __tsan_mutex_post_signal(void*, unsigned) {}
extern "C" void __tsan_mutex_pre_divert(void*, unsigned) {}
extern "C" void __tsan_mutex_post_divert(void*, unsigned) {}
static void annot_acquire(void* a) {
	if (!managed() || self->ignore) return;
	SyncObj* s = sync_for((uptr)a ^ 4);
	if (s->has_rel) acquire_vc(self, s->rel);
}
static void annot_release(void* a) {
	if (!managed() || self->ignore) return;
	SyncObj* s = sync_for((uptr)a ^ 4);
	vc_join(s->rel, self->vc);
	s->has_rel = true;
	bump(self);
}
extern "C" void __tsan_mutex_post_lock(void* m, unsigned flags, int) {
	if (!(flags & 16)) annot_acquire(m); // 16: try lock failed
}
extern "C" int __tsan_mutex_pre_unlock(void* m, unsigned) {
	annot_release(m);
	return 0;
}
extern "C" void __tsan_mutex_post_unlock(void*, unsigned) {}
// spin locks (the storage is an int)
extern "C" int pthread_spin_init(pthread_spinlock_t* l, int) noexcept {
	*l = 0;
	return 0;
}
extern "C" int pthread_spin_trylock(pthread_spinlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_spin_trylock, l); }
	sched_point(P_SYNC, (uptr)l, PC());
	touch_obj((const void*)l, sizeof *l, PC());
	if (*l) return EBUSY;
	*l = 1;
	SyncObj* s = sync_for((uptr)l);
	if (s->has_rel) acquire_vc(self, s->rel);
	return 0;
}
extern "C" int pthread_spin_lock(pthread_spinlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_spin_lock, l); }
	while (pthread_spin_trylock(l)) block_on(ST_MUTEX, (void*)l, 0, PC());
	return 0;
}
extern "C" int pthread_spin_unlock(pthread_spinlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_spin_unlock, l); }
	touch_obj((const void*)l, sizeof *l, PC());
	SyncObj* s = sync_for((uptr)l);
	s->rel = self->vc;
	s->has_rel = true;
	bump(self);
	*l = 0;
	wake_all(ST_MUTEX, (void*)l);
	sched_point(P_SYNC, (uptr)l, PC());
	return 0;
}
// ------------------------------------------------------------------ rwlock
#define RWR(l) ((l)->__data.__readers)
#define RWW(l) ((l)->__data.__cur_writer)
static int rw_lock(pthread_rwlock_t* l, bool write, bool tryonly, uptr pc, u64 deadline = 0) {
	Thr* t = self;
	sched_point(P_SYNC, (uptr)l, pc);
	T_sync++;
	for (;;) {
		touch_obj(l, sizeof *l, pc);
		if (write ? (RWW(l) == 0 && RWR(l) == 0) : RWW(l) == 0) break;
		if (tryonly) return EBUSY;
		if (RWW(l) == t->id + 1) {
			if (write) {}
			// libstdc++ asserts on EDEADLK; report it as what it is
			failf("deadlock", "t%d locks rwlock %p it already holds exclusively @%lx", t->id, (void*)l, pc);
		}
		block_on(ST_RW, l, deadline, pc);
		if (deadline && t->timedout && !(write ? (RWW(l) == 0 && RWR(l) == 0) : RWW(l) == 0)) return ETIMEDOUT;
	}
	SyncObj* s = sync_for((uptr)l);
	g_sig = mix(g_sig, ((u64)t->id << 40) ^ ((u64)s->ord << 8) ^ (write ? 0x79 : 0x78));
	if (s->has_rel) acquire_vc(t, s->rel);
	if (write) {
		RWW(l) = t->id + 1;
		acquire_vc(t, s->rrel);
	} else
		RWR(l)++;
	return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_rdlock, l); }
	return rw_lock(l, false, false, PC());
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_wrlock, l); }
	return rw_lock(l, true, false, PC());
}
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_tryrdlock, l); }
	return rw_lock(l, false, true, PC());
}
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_trywrlock, l); }
	return rw_lock(l, true, true, PC());
}
extern "C" int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_timedrdlock, l, ts); }
	return rw_lock(l, false, false, PC(), to_deadline(abs_to_v(0, ts)));
}
extern "C" int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_timedwrlock, l, ts); }
	return rw_lock(l, true, false, PC(), to_deadline(abs_to_v(0, ts)));
}
extern "C" int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t clk, const struct timespec* ts) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_clockrdlock, l, clk, ts); }
	return rw_lock(l, false, false, PC(), to_deadline(abs_to_v(clk, ts)));
}
extern "C" int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t clk, const struct timespec* ts) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_clockwrlock, l, clk, ts); }
	return rw_lock(l, true, false, PC(), to_deadline(abs_to_v(clk, ts)));
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
	if (!managed() || self->ignore) { REAL(pthread_rwlock_unlock, l); }
	Thr* t = self;
	uptr pc = PC();
	touch_obj(l, sizeof *l, pc);
	SyncObj* s = sync_for((uptr)l);
	if (RWW(l) == t->id + 1) {
		s->rel = t->vc;
		s->has_rel = true;
		RWW(l) = 0;
	} else if (RWW(l) == 0 && RWR(l) > 0) {
		vc_join(s->rrel, t->vc);
		RWR(l)--;
	} else
		failf("mutex-misuse", "unlock of rwlock %p not held @%lx", (void*)l, pc);
	bump(t);
	wake_all(ST_RW, l);
	sched_point(P_SYNC, (uptr)l, pc);
	return 0;
}
extern "C" int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
// ------------------------------------------------------------------ cond
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, uptr pc) {
	Thr* t = self;
	sched_point(P_SYNC, (uptr)c, pc);
	T_sync++;
	if (in_arena((uptr)c)) check_valid((uptr)c, sizeof *c, true, pc);
	mutex_unlock(m, pc, false);
	block_on(ST_COND, c, deadline, pc);
	bool to = t->timedout && !t->signaled;
	mutex_lock(m, false, 0, pc, false);
	return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	if (!managed()) { REAL(pthread_cond_wait, c, m); }
	return cond_wait(c, m, 0, PC());
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
	if (!managed()) { REAL(pthread_cond_timedwait, c, m, ts); }
	return cond_wait(c, m, to_deadline(abs_to_v(0, ts)), PC());
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
	if (!managed()) { REAL(pthread_cond_clockwait, c, m, clk, ts); }
	return cond_wait(c, m, to_deadline(abs_to_v(clk, ts)), PC());
}
static void cond_wake(pthread_cond_t* c, bool all, uptr pc) {
	Thr* t = self;
	sched_point(P_SYNC, (uptr)c, pc);
	T_sync++;
	if (in_arena((uptr)c)) check_valid((uptr)c, sizeof *c, true, pc);
	t->in_rt++;
	int l[MAXT], n = 0;
	for (int i = 0; i < g_nthr; i++)
		if (g_thr[i].state == ST_COND && g_thr[i].obj == c) l[n++] = i;
	if (n) {
		if (!all) {
			l[0] = l[RS.below(n)];
			n = 1;
		}
		for (int i = 0; i < n; i++) {
			Thr& x = g_thr[l[i]];
			x.state = ST_RUN;
			x.obj = nullptr;
			x.deadline = 0;
			x.signaled = true;
		}
		g_idlejumps = 0;
	}
	t->in_rt--;
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept {
	if (!managed()) { REAL(pthread_cond_signal, c); }
	cond_wake(c, false, PC());
	return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
	if (!managed()) { REAL(pthread_cond_broadcast, c); }
	cond_wake(c, true, PC());
	return 0;
}
extern "C" int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept {
	RtScope rs;
	imemset(c, 0, sizeof *c);
	return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t* c) noexcept {
	if (managed()) {
		if (in_arena((uptr)c)) check_valid((uptr)c, sizeof *c, true, PC());
		for (int i = 0; i < g_nthr; i++)
			if (g_thr[i].state == ST_COND && g_thr[i].obj == c) failf("cond-misuse", "destroying condition variable %p while t%d waits on it @%lx", (void*)c, i, PC());
	}
	return 0;
}
// ------------------------------------------------------------------ once / guards
extern "C" int pthread_once(pthread_once_t* o, void (*fn)()) {
	if (!managed()) { REAL(pthread_once, o, fn); }
	Thr* t = self;
	uptr pc = PC();
	for (;;) {
		sched_point(P_SYNC, (uptr)o, pc);
		if (*o == 2) {
			SyncObj* s = sync_for((uptr)o);
			if (s->has_rel) acquire_vc(t, s->rel);
			return 0;
		}
		if (*o == 0) break;
		block_on(ST_ONCE, o, 0, pc);
	}
	*o = 1;
	struct Guard {
		pthread_once_t* o;
		int to = 0;
		~Guard() {
			*o = to;
			SyncObj* s = sync_for((uptr)o);
			s->rel = self->vc;
			s->has_rel = true;
			bump(self);
			wake_all(ST_ONCE, o);
		}
	} g{o};
	fn();
	g.to = 2;
	return 0;
}
// ------------------------------------------------------------------ threads
static const uptr FAKE = 0x7e5700000000ull;
static uptr fake_id(int id) { return FAKE + (uptr)(id + 1) * 0x1000; }
static Thr* from_fake(pthread_t p) {
	uptr v = (uptr)p - FAKE;
	if (v >= 0x1000 && v <= (uptr)MAXT * 0x1000 && !(v & 0xfff)) return &g_thr[v / 0x1000 - 1];
	return nullptr;
}
static __typeof__(&pthread_create) real_create() {
	static __typeof__(&pthread_create) f;
	if (!f) f = real<__typeof__(&pthread_create)>("pthread_create");
	return f;
}
static void alt_stack() {
	stack_t ss;
	imemset(&ss, 0, sizeof ss);
	ss.ss_size = 1 << 16;
	ss.ss_sp = (void*)rawsys(SYS_mmap, 0, (long)ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	sigaltstack(&ss, nullptr);
	if (self) self->real_started = true;
}
static __thread void* t_altsp;
static void* trampoline(void* a) {
	Thr* t = (Thr*)a;
	self = t;
	t->in_rt = 1;
	stack_t ss;
	ss.ss_flags = 0;
	ss.ss_size = 1 << 15;
	static __thread char altbuf[1 << 15];
	ss.ss_sp = altbuf;
	sigaltstack(&ss, nullptr);
	sem_wait_(t);
	{
		pthread_attr_t at;
		void* sp = nullptr;
		size_t sz = 0;
		static int (*gi)(pthread_t, pthread_attr_t*) = nullptr;
		if (!gi) gi = real<int (*)(pthread_t, pthread_attr_t*)>("pthread_getattr_np");
		if (gi(t->real, &at) == 0) {
			pthread_attr_getstack(&at, &sp, &sz);
			pthread_attr_destroy(&at);
			shadow_clear((uptr)sp, sz);
		}
	}
	t->in_rt = 0;
	void* r = t->fn(t->arg);
	t->in_rt = 1;
	t->ret = r;
	g_steps++;
	// end of thread: hand over
	for (int i = 0; i < g_nthr; i++) {
		Thr& x = g_thr[i];
		if (x.state == ST_JOIN && x.obj == t) {
			x.state = ST_RUN;
			x.obj = nullptr;
		}
		if (x.state == ST_ALL) x.state = ST_RUN;
	}
	t->state = ST_DONE;
	ss.ss_flags = SS_DISABLE;
	sigaltstack(&ss, nullptr);
	// pick successor
	for (;;) {
		int list[MAXT];
		int n = runnable_count(list, -1);
		if (n) {
			Thr* nx = pick(list, n);
			g_switches++;
			g_sig = mix(g_sig, ((u64)nx->id << 32) ^ t->id ^ 0xE0000);
			g_cur = nx;
			self = nullptr;
			sem_post_(nx);
			return nullptr;
		}
		u64 m = min_deadline();
		if (!m) {
			describe_threads();
			failf("deadlock", "no thread can run:%s", g_blockinfo);
		}
		if (++g_idlejumps > 600) {
			describe_threads();
			failf("hang", "only periodic timeouts happen any more:%s", g_blockinfo);
		}
		if (m > g_vtime) g_vtime = m;
		wake_timers();
	}
}
extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept {
	if (!managed()) return real_create()(out, attr, fn, arg);
	Thr* t = self;
	uptr pc = PC();
	sched_point(P_SYNC, 0, pc);
	if (g_fail_threads > 0 && --g_fail_threads == 0) return EAGAIN;
	t->in_rt++;
	if (g_nthr >= MAXT) {
		fprintf(stderr, "vrt: too many threads\n");
		rawsys(SYS_exit_group, 91);
	}
	Thr* n = &g_thr[g_nthr];
	imemset(n, 0, sizeof *n);
	n->id = g_nthr++;
	n->fn = fn;
	n->arg = arg;
	n->state = ST_RUN;
	n->prio = 2000000 + RS.below(1u << 30);
	n->vc = t->vc;
	n->view = t->view;
	n->vc.c[n->id] = 1;
	n->view.c[n->id] = 1;
	bump(t);
	T_threads++;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 256 << 10);
	int rc = real_create()(&n->real, &at, trampoline, n);
	pthread_attr_destroy(&at);
	if (rc) {
		fprintf(stderr, "vrt: pthread_create failed %d\n", rc);
		rawsys(SYS_exit_group, 92);
	}
	// std::thread passes the address of a member that the new thread may read: write through
	*out = (pthread_t)fake_id(n->id);
	t->in_rt--;
	sched_point(P_SYNC, 0, pc);
	return 0;
}
extern "C" int pthread_join(pthread_t p, void** ret) {
	if (!managed()) { REAL(pthread_join, p, ret); }
	Thr* x = from_fake(p);
	if (!x || x->joined || x->detached) failf("thread-misuse", "join of invalid thread");
	if (x == self) return EDEADLK;
	sched_point(P_SYNC, 0, PC());
	while (x->state != ST_DONE) block_on(ST_JOIN, x, 0, PC());
	x->joined = true;
	acquire_vc(self, x->vc);
	if (ret) *ret = x->ret;
	return 0;
}
extern "C" int pthread_detach(pthread_t p) noexcept {
	if (!managed()) { REAL(pthread_detach, p); }
	Thr* x = from_fake(p);
	if (x) x->detached = true;
	return 0;
}
extern "C" pthread_t pthread_self() noexcept {
	if (g_active && self && !self->in_rt) return (pthread_t)fake_id(self->id);
	REAL(pthread_self);
}
extern "C" int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
extern "C" int sched_yield() noexcept {
	if (!managed()) return 0;
	sched_point(P_YIELD, 0, PC());
	return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if (g_active && self && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) {
		ts->tv_sec = (time_t)(g_vtime / 1000000000ull);
		ts->tv_nsec = (long)(g_vtime % 1000000000ull);
		if (!self->in_rt && !self->ignore) g_vtime += 10;
		return 0;
	}
	return (int)rawsys(SYS_clock_gettime, id, (long)ts);
}
static void vsleep(u64 deadline, uptr pc) {
	sched_point(P_SYNC, 0, pc);
	block_on(ST_SLEEP, nullptr, to_deadline(deadline), pc);
}
extern "C" int nanosleep(const struct timespec* ts, struct timespec*) {
	if (!managed()) return 0;
	vsleep(g_vtime + abs_to_v(0, ts), PC());
	return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
	if (!managed()) return 0;
	vsleep(flags & TIMER_ABSTIME ? abs_to_v(0, ts) : g_vtime + abs_to_v(0, ts), PC());
	return 0;
}
extern "C" int usleep(useconds_t us) {
	if (managed()) vsleep(g_vtime + us * 1000ull, PC());
	return 0;
}
extern "C" long syscall(long nr, ...) noexcept {
	va_list ap;
	va_start(ap, nr);
	long a[6];
	for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
	va_end(ap);
	if (nr == SYS_futex && managed()) {
		int op = (int)a[1] & FUTEX_CMD_MASK;
		volatile int* addr = (volatile int*)a[0];
		uptr pc = PC();
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			sched_point(P_SYNC, (uptr)addr, pc);
			if (in_arena((uptr)addr)) check_valid((uptr)addr, 4, false, pc);
			if (*addr != (int)a[2]) {
				errno = EAGAIN;
				return -1;
			}
			u64 dl = 0;
			const struct timespec* ts = (const struct timespec*)a[3];
			if (ts) dl = op == FUTEX_WAIT ? g_vtime + abs_to_v(0, ts) : to_deadline(abs_to_v(0, ts));
			block_on(ST_FUTEX, (void*)addr, dl, pc);
			if (self->timedout && !self->signaled) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			sched_point(P_SYNC, (uptr)addr, pc);
			int n = 0, max = (int)a[2];
			for (int i = 0; i < g_nthr && n < max; i++)
				if (g_thr[i].state == ST_FUTEX && g_thr[i].obj == (void*)addr) {
					g_thr[i].state = ST_RUN;
					g_thr[i].obj = nullptr;
					g_thr[i].deadline = 0;
					g_thr[i].signaled = true;
					n++;
				}
			if (n) g_idlejumps = 0;
			return n;
		}
	}
	long r = rawsys(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (r < 0 && r > -4096) {
		errno = (int)-r;
		return -1;
	}
	return r;
}
// guards of function-local statics
extern "C" int __cxa_guard_acquire(u64* g) {
	volatile u8* b = (volatile u8*)g;
	if (!managed()) {
		if (b[0]) return 0;
		return 1;
	}
	for (;;) {
		sched_point(P_SYNC, (uptr)g, PC());
		if (b[0]) {
			SyncObj* s = sync_for((uptr)g);
			if (s->has_rel) acquire_vc(self, s->rel);
			return 0;
		}
		if (!b[1]) {
			b[1] = 1;
			return 1;
		}
		block_on(ST_ONCE, g, 0, PC());
	}
}
extern "C" void __cxa_guard_release(u64* g) {
	volatile u8* b = (volatile u8*)g;
	if (managed()) {
		SyncObj* s = sync_for((uptr)g);
		s->rel = self->vc;
		s->has_rel = true;
		bump(self);
		wake_all(ST_ONCE, g);
	}
	b[1] = 0;
	b[0] = 1;
}
extern "C" void __cxa_guard_abort(u64* g) {
	volatile u8* b = (volatile u8*)g;
	b[1] = 0;
	if (managed()) wake_all(ST_ONCE, g);
}
// ------------------------------------------------------------------ exception_ptr counting (uninstrumented libstdc++)
static void exc_sync(void* obj) {
	Thr* t = self;
	if (!g_active || !t || t->in_rt || t->ignore || !obj) return;
	SyncObj* s = sync_for((uptr)obj + 1);
	if (s->has_rel) acquire_vc(t, s->rel);
	s->rel = t->vc;
	s->has_rel = true;
	bump(t);
}
extern "C" void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void** p) {
	exc_sync(*p);
	static void (*rf)(void**);
	if (!rf) rf = real<void (*)(void**)>("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
	rf(p);
}
extern "C" void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** p) {
	exc_sync(*p);
	static void (*rf)(void**);
	if (!rf) rf = real<void (*)(void**)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
	rf(p);
}
extern "C" void* __cxa_get_globals();
extern "C" void __cxa_end_catch() {
	if (user_ctx()) {
		// std::current_exception() equivalent without counting: walk to the primary object
		static void* (*cur)(void*);
		if (!cur) cur = real<void* (*)(void*)>("_ZSt17current_exceptionv");
		void* ep = nullptr;
		self->in_rt++;
		cur(&ep); // returns by hidden pointer
		void* obj = ep;
		self->in_rt--;
		exc_sync(obj);
		if (obj) {
			self->in_rt++;
			static void (*rel)(void**);
			if (!rel) rel = real<void (*)(void**)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
			rel(&ep);
			self->in_rt--;
		}
	}
	static void (*rf)();
	if (!rf) rf = real<void (*)()>("__cxa_end_catch");
	rf();
}

// ------------------------------------------------------------------ scenario interface
static VC* g_snaps;
static u32* g_snapclk;
static u8* g_snaptid;
static u32 g_nsnap;
static const u32 MAXSNAP = 1 << 14;
extern "C" {
uint64_t vrt_rand64() { return RP.next(); }
void vrt_ignore_begin() {
	if (self) self->ignore++;
}
void vrt_ignore_end() {
	if (self) self->ignore--;
}
void vrt_fail(const char* kind, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fail_v(kind, fmt, ap);
}
void vrt_log(const char* fmt, ...) {
	RtScope rs;
	va_list ap;
	va_start(ap, fmt);
	logv(fmt, ap);
	va_end(ap);
}
void vrt_nontrivial() { g_nontrivial = true; }
void vrt_sig(uint64_t v) { g_usersig = mix(g_usersig, v); }
uint64_t vrt_now_ns() { return g_vtime; }
uint64_t vrt_step() { return ++g_events; }
int vrt_tid() { return self ? self->id : -1; }
int vrt_switches() { return (int)g_switches; }
void vrt_yield() {
	if (managed()) sched_point(P_YIELD, 0, PC());
}
void vrt_sleep_ns(uint64_t ns) {
	if (managed()) vsleep(g_vtime + ns, PC());
}
uint32_t vrt_stamp() {
	Thr* t = self;
	if (!t || g_nsnap >= MAXSNAP) return 0;
	RtScope rs;
	g_snaps[g_nsnap] = t->vc;
	g_snapclk[g_nsnap] = t->vc.c[t->id];
	g_snaptid[g_nsnap] = t->id;
	bump(t);
	return g_nsnap++;
}
bool vrt_hb(uint32_t a, uint32_t b) {
	if (a == b) return false;
	return g_snaps[b].c[g_snaptid[a]] >= g_snapclk[a] && !(g_snaptid[a] == g_snaptid[b] && b < a);
}
bool vrt_stale_mode() { return M.stale_den != 0; }
bool vrt_timefuzz() { return M.leap_den != 0; }
size_t vrt_live_blocks() { return g_live; }
size_t vrt_live_maps() { return g_live_maps; }
bool vrt_is_live(const void* p) {
	if (!in_arena((uptr)p)) return false;
	Block* b = find_block((uptr)p);
	return b && b->live && (uptr)p >= b->addr && (uptr)p < b->addr + (b->size ? b->size : 1);
}
void vrt_expect_leaks() { g_expect_leaks = true; }
void vrt_fail_threads(int nth) { g_fail_threads = nth; }
void vrt_acquire_release(void* a) { exc_sync(a); }
}
static const int MAXCNT = 128;
static struct {
	const char* key;
	u64 n;
} g_cnt[MAXCNT];
static int g_ncnt;
extern "C" void vrt_count(const char* key, uint64_t n) {
	for (int i = 0; i < g_ncnt; i++)
		if (g_cnt[i].key == key || !strcmp(g_cnt[i].key, key)) {
			g_cnt[i].n += n;
			return;
		}
	if (g_ncnt < MAXCNT) {
		g_cnt[g_ncnt].key = key;
		g_cnt[g_ncnt++].n = n;
	}
}

// ------------------------------------------------------------------ reporting
static FILE* g_out;
static void json_str(FILE* f, const char* s) {
	fputc('"', f);
	for (; *s; s++) {
		u8 c = (u8)*s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static void write_stats(FILE* f);
static volatile int g_failing;
static void emit_fail(const char* kind, const char* msg, void** bt, int nbt) {
	fprintf(g_out, "{\"type\":\"fail\",\"scenario\":\"%s\",\"index\":%llu,\"seed\":%llu,\"kind\":\"%s\",\"step\":%llu,\"thread\":%d,\"msg\":", g_sc ? g_sc->name : "?",
			(unsigned long long)g_exec_index, (unsigned long long)g_exec_seed, kind, (unsigned long long)g_steps, g_cur ? g_cur->id : -1);
	json_str(g_out, msg);
	fprintf(g_out, ",\"bt\":[");
	for (int i = 0; i < nbt; i++) fprintf(g_out, "%s\"%lx\"", i ? "," : "", (unsigned long)bt[i]);
	fprintf(g_out, "],\"log\":");
	json_str(g_out, g_log ? g_log : "");
	fprintf(g_out, "}\n");
	write_stats(g_out);
	fflush(g_out);
}
static void fail_v(const char* kind, const char* fmt, va_list ap) {
	if (self) self->in_rt += 1000;
	if (__atomic_exchange_n(&g_failing, 1, __ATOMIC_SEQ_CST)) rawsys(SYS_exit_group, 93);
	static char msg[8192];
	vsnprintf(msg, sizeof msg, fmt, ap);
	void* bt[48];
	int n = 0;
	bool wasactive = g_active;
	g_active = false;
	n = backtrace(bt, 48);
	(void)wasactive;
	emit_fail(kind, msg, bt, n);
	rawsys(SYS_exit_group, 10);
	__builtin_unreachable();
}
static void failf(const char* kind, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fail_v(kind, fmt, ap);
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
	if (self) self->in_rt += 1000;
	g_active = false;
	if (__atomic_exchange_n(&g_failing, 1, __ATOMIC_SEQ_CST)) rawsys(SYS_exit_group, 94);
	char msg[256];
	const char* kind = sig == SIGABRT ? "abort" : sig == SIGSEGV || sig == SIGBUS ? "segv" : sig == SIGFPE ? "sigfpe" : sig == SIGALRM ? "wall" : "signal";
	uptr ip = (uptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
	snprintf(msg, sizeof msg, "signal %d at address %p ip @%lx", sig, si->si_addr, ip);
	void* bt[48];
	int n = 0;
	if (sig == SIGABRT) n = backtrace(bt, 48);
	else {
		bt[0] = (void*)(ip + 1);
		n = 1;
		bt[0] = (void*)(ip + 1);
	}
	emit_fail(kind, msg, bt, n);
	rawsys(SYS_exit_group, sig == SIGALRM ? 11 : 10);
}
struct HashSet {
	u64* t;
	u64 cap, n;
	bool add(u64 v) {
		if (!v) v = 1;
		if (!t || n * 2 >= cap) {
			u64 ncap = cap ? cap * 2 : 4096;
			u64* nt = (u64*)__libc_calloc(ncap, 8);
			for (u64 i = 0; i < cap; i++)
				if (t[i]) {
					u64 h = t[i] & (ncap - 1);
					while (nt[h]) h = (h + 1) & (ncap - 1);
					nt[h] = t[i];
				}
			if (t) __libc_free(t);
			t = nt;
			cap = ncap;
		}
		u64 h = v & (cap - 1);
		while (t[h]) {
			if (t[h] == v) return false;
			h = (h + 1) & (cap - 1);
		}
		t[h] = v;
		n++;
		return true;
	}
};
static HashSet g_sigs;
static void write_stats(FILE* f) {
	fprintf(f,
			"{\"type\":\"stats\",\"scenario\":\"%s\",\"executions\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"steps\":%llu,\"switches\":%llu,\"points\":%llu,\"plain\":%llu,"
			"\"atomics\":%llu,\"sync_ops\":%llu,\"weak_failures\":%llu,\"stale_reads\":%llu,\"spurious_wakeups\":%llu,\"time_leaps\":%llu,\"threads\":%llu,\"counters\":{",
			g_sc ? g_sc->name : "?", (unsigned long long)T_exec, (unsigned long long)T_nontriv, (unsigned long long)g_sigs.n, (unsigned long long)T_steps,
			(unsigned long long)T_switches, (unsigned long long)T_points, (unsigned long long)T_plain, (unsigned long long)T_atomic, (unsigned long long)T_sync,
			(unsigned long long)T_weakfail, (unsigned long long)T_stale, (unsigned long long)T_spur, (unsigned long long)T_leap, (unsigned long long)T_threads);
	for (int i = 0; i < g_ncnt; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", g_cnt[i].key, (unsigned long long)g_cnt[i].n);
	fprintf(f, "}}\n");
	fflush(f);
}

// ------------------------------------------------------------------ execution driver
static void setup_mode(unsigned fl) {
	imemset(&M, 0, sizeof M);
	u64 r = RS.below(10);
	M.strategy = r < 5 ? S_RANDOM : r < 8 ? S_PCT : S_BURST;
	static const u64 dens[] = {2, 3, 5, 8, 16, 40};
	M.switch_den = dens[RS.below(6)];
	M.plain_den = RS.one_in(4) ? 8 + RS.below(60) : 0;
	M.weak_den = (fl & VRT_NOSPURIOUS) ? 0 : RS.one_in(2) ? 2 + RS.below(10) : 0;
	M.spurious_den = (fl & VRT_NOSPURIOUS) ? 0 : RS.one_in(3) ? 20 + RS.below(200) : 0;
	M.leap_den = (fl & VRT_NOLEAP) ? 0 : RS.one_in(2) ? 10 + RS.below(150) : 0;
	M.stale_den = (fl & VRT_NOSTALE) ? 0 : RS.one_in(3) ? 1 + RS.below(4) : 0;
	static const int ks[] = {40, 100, 250, 600, 1500};
	M.pct_k = ks[RS.below(5)];
	M.pct_d = 1 + (int)RS.below(6);
	for (int i = 0; i < M.pct_d; i++) M.changes[i] = 1 + RS.below((u64)M.pct_k);
}
static void run_one(const vrt_scenario* sc, u64 seed) {
	g_exec_seed = seed;
	RS.s = mix(seed, 0x5eed);
	RP.s = mix(seed, 0x9806);
	setup_mode(sc->flags);
	g_exec++;
	g_steps = g_switches = g_idlejumps = g_events = 0;
	g_vtime = 1000000000000ull + RS.below(1000000);
	g_sig = g_usersig = 0;
	g_nontrivial = g_expect_leaks = false;
	g_fail_threads = 0;
	g_lowprio = 0;
	g_loglen = 0;
	g_log[0] = 0;
	g_soord = 0;
	g_nsnap = 1;
	g_live_maps = 0;
	quar_release();
	g_ntfib = g_livetfib = 0;
	imemset(&g_scvc, 0, sizeof g_scvc);
	g_brk = 0;
	g_nblocks = 0;
	g_live = 0;
	Thr* t = &g_thr[0];
	imemset(t, 0, sizeof *t);
	t->state = ST_RUN;
	t->prio = 2000000 + RS.below(1u << 30);
	t->vc.c[0] = 1;
	t->view.c[0] = 1;
	g_nthr = 1;
	self = t;
	g_cur = t;
	g_active = true;
	sc->fn();
	// let everything else finish
	for (;;) {
		bool all = true;
		for (int i = 1; i < g_nthr; i++)
			if (g_thr[i].state != ST_DONE) all = false;
		if (all) break;
		block_on(ST_ALL, nullptr, 0, 0);
	}
	t->in_rt++;
	if (!g_expect_leaks && !(sc->flags & VRT_NOLEAK) && g_live) {
		for (u32 i = 0; i < g_nblocks; i++)
			if (g_blocks[i].live) failf("leak", "%zu block(s) leaked, first %p size %zu allocated @%lx by t%d", g_live, (void*)g_blocks[i].addr, g_blocks[i].size, g_blocks[i].apc, g_blocks[i].atid);
	}
	g_active = false;
	t->in_rt--;
	for (int i = 1; i < g_nthr; i++) {
		static __typeof__(&pthread_join) rj;
		if (!rj) rj = real<__typeof__(&pthread_join)>("pthread_join");
		rj(g_thr[i].real, nullptr);
	}
	self = nullptr;
	g_cur = nullptr;
	imemset(g_gran, G_UNALLOC, g_brk / 8 + 8);
	T_exec++;
	T_steps += g_steps;
	T_switches += g_switches;
	if (g_nontrivial) T_nontriv++;
	if (g_nontrivial) g_sigs.add(mix(g_sig, g_usersig));
}
int vrt_main(int argc, char** argv, const vrt_scenario* tab, size_t ntab) {
	const char* name = nullptr;
	const char* outp = nullptr;
	const char* sigout = nullptr;
	u64 base = 1, start = 0, count = 100, samples = 0, wall = 0, one = 0;
	bool haveone = false;
	for (int i = 1; i < argc; i++) {
		auto arg = [&](const char* k) -> const char* { return !strcmp(argv[i], k) && i + 1 < argc ? argv[++i] : nullptr; };
		const char* v;
		if (!strcmp(argv[i], "--list")) {
			for (size_t k = 0; k < ntab; k++) printf("%s\n", tab[k].name);
			return 0;
		} else if ((v = arg("--scenario"))) name = v;
		else if ((v = arg("--base"))) base = strtoull(v, 0, 0);
		else if ((v = arg("--start"))) start = strtoull(v, 0, 0);
		else if ((v = arg("--count"))) count = strtoull(v, 0, 0);
		else if ((v = arg("--samples"))) samples = strtoull(v, 0, 0);
		else if ((v = arg("--out"))) outp = v;
		else if ((v = arg("--sigs"))) sigout = v;
		else if ((v = arg("--wall"))) wall = strtoull(v, 0, 0);
		else if ((v = arg("--seed"))) {
			one = strtoull(v, 0, 0);
			haveone = true;
			count = 1;
		} else if (!strcmp(argv[i], "-v")) g_verbose = 1;
	}
	g_out = outp ? fopen(outp, "w") : stdout;
	if (!g_out) return 95;
	for (size_t k = 0; k < ntab; k++)
		if (name && !strcmp(tab[k].name, name)) g_sc = &tab[k];
	if (!g_sc) {
		fprintf(stderr, "vrt: unknown scenario\n");
		return 96;
	}
	// metadata
	long r = rawsys(SYS_mmap, (long)ARENA, (long)ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (r != (long)ARENA) return 97;
	auto mm = [](size_t n) { return (void*)rawsys(SYS_mmap, 0, (long)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
	g_gran = (u8*)mm(ARENA_SIZE / 8 + 4096);
	g_blocks = (Block*)mm(sizeof(Block) * MAXBLOCKS);
	g_shtab = (ShadowPage**)mm(sizeof(void*) * SH_SIZE);
	g_so = (SyncObj**)mm(sizeof(void*) * SO_SIZE);
	g_log = (char*)mm(LOGMAX + 4096);
	g_snaps = (VC*)mm(sizeof(VC) * MAXSNAP);
	g_snapclk = (u32*)mm(4 * MAXSNAP);
	g_snaptid = (u8*)mm(MAXSNAP);
	{
		void* bt[4];
		backtrace(bt, 4); // load libgcc now
	}
	alt_stack();
	struct sigaction sa;
	imemset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM};
	for (int s : sigs) sigaction(s, &sa, nullptr);
	if (wall) alarm((unsigned)wall);
	for (u64 i = 0; i < count; i++) {
		g_exec_index = start + i;
		u64 seed = haveone ? one : mix(mix(base, strhash(g_sc->name)), start + i);
		run_one(g_sc, seed);
		if (samples || g_verbose) {
			if (samples) samples--;
			fprintf(g_out, "{\"type\":\"sample\",\"scenario\":\"%s\",\"seed\":%llu,\"steps\":%llu,\"switches\":%llu,\"log\":", g_sc->name, (unsigned long long)seed,
					(unsigned long long)g_steps, (unsigned long long)g_switches);
			json_str(g_out, g_log);
			fprintf(g_out, "}\n");
		}
	}
	write_stats(g_out);
	if (sigout) {
		FILE* f = fopen(sigout, "wb");
		if (f) {
			for (u64 i = 0; i < g_sigs.cap; i++)
				if (g_sigs.t[i]) fwrite(&g_sigs.t[i], 8, 1, f);
			fclose(f);
		}
	}
	fflush(g_out);
	return 0;
}
