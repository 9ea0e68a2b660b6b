// C28: fiber switches preserve the execution context. Runs natively, without a controlled schedule.
#include "nat.h"
#include <asyncpp/fiber.h>
#include <alloca.h>
#include <cerrno>
#include <csignal>
#include <new>
#include <optional>
#include <sys/mman.h>
#include <sys/syscall.h>
using namespace h;
using asyncpp::fiber;
using hdl = std::coroutine_handle<>;
// ------------------------------------------------------------------ stacks: every mapping the program makes while watched
namespace {
	const size_t PAGE = 4096, PAD = 24 * PAGE;
	struct region {
		char *outer, *a;
		size_t n, released;
	};
	region g_reg[256];
	int g_nreg;
	bool g_watch;
	int g_fail_map = -1, g_fail_prot = -1, g_maps, g_prots;
	bool pads_ok(const region& r) {
		for (size_t i = 0; i < PAD; i += 8)
			if (*(u64*)(r.outer + i) != 0x5c5c5c5c5c5c5c5cull || *(u64*)(r.a + r.n + i) != 0x5c5c5c5c5c5c5c5cull) return false;
		return true;
	}
	region* region_of(const void* p) {
		for (int i = 0; i < g_nreg; i++)
			if (g_reg[i].released < g_reg[i].n && (char*)p >= g_reg[i].a && (char*)p < g_reg[i].a + g_reg[i].n) return &g_reg[i];
		return nullptr;
	}
	int live_regions() {
		int n = 0;
		for (int i = 0; i < g_nreg; i++) n += g_reg[i].released < g_reg[i].n;
		return n;
	}
} // namespace
extern "C" {
__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile*, size_t);
static void* fresh(void* p, size_t n) { // done by ASan's own mmap
	if (p != MAP_FAILED && __asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n);
	return p;
}
void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) noexcept {
	if (g_watch && !a && (fl & MAP_ANONYMOUS) && g_nreg < 256) {
		if (g_maps++ == g_fail_map) {
			errno = ENOMEM;
			return MAP_FAILED;
		}
		long o = syscall(SYS_mmap, 0, n + 2 * PAD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (o == -1) return MAP_FAILED;
		fresh((void*)o, n + 2 * PAD);
		region& r = g_reg[g_nreg++];
		r = {(char*)o, (char*)o + PAD, n, 0};
		memset(r.outer, 0x5c, PAD);
		memset(r.a + n, 0x5c, PAD);
		syscall(SYS_mprotect, r.a, n, prot);
		return r.a;
	}
	return fresh((void*)syscall(SYS_mmap, a, n, prot, fl, fd, off), n);
}
int munmap(void* a, size_t n) noexcept {
	if (region* r = region_of(a)) {
		CHECK((char*)a + n <= r->a + r->n, "more unmapped than was mapped");
		CHECK(pads_ok(*r), "memory next to a fiber's stack was overwritten");
		r->released += n;
		if (r->released == r->n) return (int)syscall(SYS_munmap, r->outer, r->n + 2 * PAD);
		return (int)syscall(SYS_mprotect, a, n, PROT_NONE);
	}
	for (int i = 0; i < g_nreg; i++) CHECK((char*)a < g_reg[i].a || (char*)a >= g_reg[i].a + g_reg[i].n, "stack unmapped twice");
	return (int)syscall(SYS_munmap, a, n);
}
int mprotect(void* a, size_t n, int prot) noexcept {
	if (g_watch && region_of(a)) {
		if (g_prots++ == g_fail_prot) {
			errno = ENOMEM;
			return -1;
		}
	}
	return (int)syscall(SYS_mprotect, a, n, prot);
}
}
namespace {
	void watch_reset() {
		g_nreg = 0;
		g_maps = g_prots = 0;
		g_fail_map = g_fail_prot = -1;
		g_watch = true;
	}
	void watch_end() {
		g_watch = false;
		CHECK(live_regions() == 0, "%d stacks of fibers are still mapped", live_regions());
	}
} // namespace
// ------------------------------------------------------------------ registers and floating point control
extern "C" void canary_call(void (*fn)(void*), void* arg, const u64* in, u64* out);
asm(R"(
.text
.p2align 4
.globl canary_call
.type canary_call,@function
canary_call:
.cfi_startproc
	pushq %rbx
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset %rbx, 0
	pushq %rbp
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset %rbp, 0
	pushq %r12
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset %r12, 0
	pushq %r13
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset %r13, 0
	pushq %r14
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset %r14, 0
	pushq %r15
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset %r15, 0
	pushq %rcx
	.cfi_adjust_cfa_offset 8
	movq %rdi, %rax
	movq %rsi, %rdi
	movq 0(%rdx), %rbx
	movq 8(%rdx), %rbp
	movq 16(%rdx), %r12
	movq 24(%rdx), %r13
	movq 32(%rdx), %r14
	movq 40(%rdx), %r15
	call *%rax
	movq (%rsp), %rcx
	movq %rbx, 0(%rcx)
	movq %rbp, 8(%rcx)
	movq %r12, 16(%rcx)
	movq %r13, 24(%rcx)
	movq %r14, 32(%rcx)
	movq %r15, 40(%rcx)
	popq %rcx
	.cfi_adjust_cfa_offset -8
	popq %r15
	.cfi_adjust_cfa_offset -8
	.cfi_restore %r15
	popq %r14
	.cfi_adjust_cfa_offset -8
	.cfi_restore %r14
	popq %r13
	.cfi_adjust_cfa_offset -8
	.cfi_restore %r13
	popq %r12
	.cfi_adjust_cfa_offset -8
	.cfi_restore %r12
	popq %rbp
	.cfi_adjust_cfa_offset -8
	.cfi_restore %rbp
	popq %rbx
	.cfi_adjust_cfa_offset -8
	.cfi_restore %rbx
	ret
.cfi_endproc
.size canary_call,.-canary_call
)");
namespace {
	const char* const regname[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
	template<class F>
	void with_canaries(F&& f) {
		u64 in[6], out[6];
		for (auto& x : in) x = vrt_rand64();
		canary_call([](void* p) { (*(std::remove_reference_t<F>*)p)(); }, (void*)&f, in, out);
		for (int i = 0; i < 6; i++) CHECK(in[i] == out[i], "register %s was %llx and is %llx after a switch", regname[i], (unsigned long long)in[i], (unsigned long long)out[i]);
	}
	struct fpenv {
		unsigned mxcsr; // control bits
		unsigned short cw;
		bool operator==(const fpenv&) const = default;
	};
	const fpenv usual{0x1f80, 0x37f};
	__attribute__((noinline)) fpenv get_fp() {
		unsigned m;
		unsigned short c;
		asm volatile("stmxcsr %0\n\tfnstcw %1" : "=m"(m), "=m"(c)::"memory");
		return {m & 0xffc0u, c};
	}
	__attribute__((noinline)) void set_fp(fpenv e) {
		asm volatile("ldmxcsr %0\n\tfldcw %1" ::"m"(e.mxcsr), "m"(e.cw) : "memory");
	}
	fpenv rnd_fp() {
		static const unsigned pc[3] = {0, 2, 3};
		fpenv e;
		e.mxcsr = 0x1f80u | (unsigned)rnd(4) << 13 | (coin(4) ? 0x8000u : 0) | (coin(4) ? 0x40u : 0);
		e.cw = (unsigned short)(0x37fu & ~0x300u) | (unsigned short)(pc[rnd(3)] << 8) | (unsigned short)(rnd(4) << 10);
		return e;
	}
	void check_fp(fpenv want, const char* where) {
		fpenv g = get_fp();
		CHECK(g == want, "floating point control was %x/%x and is %x/%x %s", want.mxcsr, want.cw, g.mxcsr, g.cw, where);
	}
	struct held {
		struct promise_type {
			held get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt_fail("oracle", "unexpected exception escaped into the awaiting coroutine"); }
		};
		std::coroutine_handle<promise_type> h;
	};
	held await_it(fiber<void>* f) { co_await *f; }
	// ---------------------------------------------------------------- programs of fibers that park and resume each other
	struct tag {
		int who;
		u64 val;
		tracked t{1};
	};
	struct world;
	struct fx {
		int id = 0;
		hdl h{};
		bool started = false, done = false;
		std::optional<fiber<void>> f;
		held waiter{};
	};
	struct world {
		std::vector<std::unique_ptr<fx>> f;
		std::vector<fpenv> resumers; // environments of those that resumed somebody, innermost last
		int budget = 0, switches = 0, threads = 0, in_handlers = 0, unwinding = 0, canaries = 0, migrated = 0;
		bool allow_threads = true;
	};
	struct parker {
		world* w;
		fx* x;
		bool await_ready() { return false; }
		void await_suspend(hdl h) {
			CHECK(!w->resumers.empty(), "nobody resumed this");
			check_fp(w->resumers.back(), "after a fiber switched back");
			x->h = h;
		}
		void await_resume() {}
	};
	thread_local int t_id;
	__attribute__((noinline)) int thread_id() { return t_id; }
	std::exception_ptr now_handling() { return std::current_exception(); }
	void park(world* w, fx* x) {
		fpenv e = get_fp();
		auto ex = now_handling();
		int tid = thread_id();
		w->switches++;
		fib_await parker{w, x};
		if (thread_id() != tid) w->migrated++;
		check_fp(e, "when a fiber goes on");
		CHECK(now_handling() == ex, "a fiber handles another exception after it was suspended");
		CHECK(std::uncaught_exceptions() == 0, "%d exceptions in flight in a fiber that was suspended", std::uncaught_exceptions());
	}
	__attribute__((noinline)) double park_with_locals(world* w, fx* x, double a, long k) {
		double b = a * 1.5 + 1, c = b / 3, d = c * c - a, e = d / 7, f = e + b, g = f / 11, hh = g * d, i = hh + 0.1;
		long l = k * 3, m = l ^ 0x55, n = m + k, o = n * 7, p = o - l, q = p ^ n, r = q + 12, s = r * 3;
		park(w, x);
		if (coin()) park(w, x);
		double B = a * 1.5 + 1, C = B / 3, D = C * C - a, E = D / 7, F = E + B, G = F / 11, H = G * D, I = H + 0.1;
		CHECK(l == k * 3 && m == (l ^ 0x55) && n == m + k && o == n * 7 && p == o - l && q == (p ^ n) && r == q + 12 && s == r * 3, "integer locals changed");
		CHECK(b == B && c == C && d == D && e == E && f == F && g == G && hh == H && i == I, "floating point locals changed");
		return b + c + d + e + f + g + hh + i + (double)s;
	}
	void resume_some(world* w, fx* self);
	__attribute__((noinline)) void body(world* w, fx* x, int depth) {
		tracked local(depth);
		alignas(64) char buf[64];
		CHECK((uintptr_t)buf % 64 == 0 && (uintptr_t)__builtin_frame_address(0) % 16 == 0, "stack of a fiber is misaligned");
		for (int n = 1 + (int)rnd(4); n > 0 && w->budget-- > 0; n--) {
			switch (rnd(9)) {
			case 0: set_fp(rnd_fp()); break;
			case 1: park(w, x); break;
			case 2:
			case 3:
				w->canaries++;
				with_canaries([&]() { park(w, x); });
				break;
			case 4: park_with_locals(w, x, (double)rnd(1000), (long)rnd(100000)); break;
			case 5:
				if (depth > 0) body(w, x, depth - 1);
				break;
			case 6:
			case 7: { // suspended while an exception is handled
				u64 v = vrt_rand64();
				const tag* at = nullptr;
				bool again = coin(), inner = coin();
				fpenv out = get_fp();
				try {
					try {
						throw tag{x->id, v};
					} catch (const tag& t) {
						at = &t;
						w->in_handlers++;
						park(w, x);
						if (inner && depth > 0) body(w, x, depth - 1);
						CHECK(t.who == x->id && t.val == v && t.t.get() == 1, "exception object damaged");
						out = get_fp();
						if (again) throw;
					}
				} catch (const tag& t) {
					CHECK(again && &t == at && t.who == x->id && t.val == v, "another exception was rethrown");
					park(w, x);
					out = get_fp();
				}
				check_fp(out, "after an exception was handled");
				break;
			}
			case 8: resume_some(w, x); break;
			}
		}
		CHECK(local.get() == depth, "local object of a fiber");
	}
	// make a switch in one of several surroundings
	template<class F>
	void surrounded(world* w, int how, F&& f) {
		fpenv e = get_fp();
		auto ex = now_handling();
		int un = std::uncaught_exceptions();
		auto run = [&]() {
			fpenv mine = get_fp();
			auto handling = now_handling();
			int flying = std::uncaught_exceptions();
			w->resumers.push_back(mine);
			f();
			w->resumers.pop_back();
			check_fp(mine, "after a fiber was resumed");
			CHECK(now_handling() == handling, "resuming a fiber changed the exception being handled");
			CHECK(std::uncaught_exceptions() == flying, "%d exceptions in flight instead of %d after a fiber was resumed", std::uncaught_exceptions(), flying);
		};
		switch (how) {
		case 0: run(); break;
		case 1:
			w->canaries++;
			with_canaries(run);
			break;
		case 2:
			try {
				throw trivial_error{(int)un};
			} catch (const trivial_error& t) {
				w->in_handlers++;
				run();
				CHECK(t.v == un, "exception object damaged");
			}
			break;
		case 3: {
			struct on_unwind {
				decltype(run)& r;
				~on_unwind() { r(); }
			};
			w->unwinding++;
			try {
				on_unwind u{run};
				throw trivial_error{77};
			} catch (const trivial_error& t) { CHECK(t.v == 77, "exception object damaged"); }
			break;
		}
		case 4: {
			w->threads++;
			std::thread t([&]() {
				static int n;
				t_id = ++n;
				set_fp(usual);
				run();
			});
			t.join();
			break;
		}
		}
		check_fp(e, "after a fiber was resumed");
		CHECK(now_handling() == ex && std::uncaught_exceptions() == un, "resuming a fiber changed the exceptions of its resumer");
	}
	int how(world* w) { return (int)rnd(w->allow_threads && coin(4) ? 5 : 4); }
	void resume_some(world* w, fx* self) {
		std::vector<fx*> can;
		for (auto& x : w->f)
			if (x.get() != self && !x->done && (!x->started || x->h)) can.push_back(x.get());
		if (can.empty()) return;
		fx* x = can[rnd(can.size())];
		surrounded(w, how(w), [&]() {
			if (!x->started) {
				x->started = true;
				x->waiter = await_it(&*x->f);
			} else
				std::exchange(x->h, nullptr).resume();
		});
	}
	void switches_with(bool threads) {
		reset_globals();
		fpenv before = get_fp();
		watch_reset();
		{
			world w;
			w.allow_threads = threads;
			w.budget = 10 + (int)rnd(80);
			int n = 1 + (int)rnd(5);
			for (int i = 0; i < n; i++) {
				w.f.push_back(std::make_unique<fx>());
				fx* x = w.f.back().get();
				x->id = i;
				set_fp(usual);
				x->f.emplace([w = &w, x, t = tracked(3)]() {
					CHECK(get_fp() == usual, "a fiber starts with floating point control %x/%x", get_fp().mxcsr, get_fp().cw);
					CHECK(!now_handling() && std::uncaught_exceptions() == 0, "a fiber starts with exceptions of somebody else");
					volatile double a = 1, b = 3;
					volatile long double c = 1, d = 3;
					CHECK(a / b == 1.0 / 3.0 && c / d == 1.0L / 3.0L, "arithmetic in a fiber");
					body(w, x, 2);
					CHECK(t.get() == 3, "captured object");
					x->done = true;
				},
							 (64 << 10) + rnd(10000));
			}
			if (coin()) set_fp(rnd_fp());
			while (w.budget > 0) {
				w.budget--;
				resume_some(&w, nullptr);
				if (coin(4)) set_fp(rnd_fp());
				bool any = false;
				for (auto& x : w.f) any |= !x->done && (!x->started || x->h);
				if (!any) break;
			}
			// some go on to their end, the others are destroyed where they are
			bool finish = coin();
			w.budget = 0;
			for (auto& x : w.f) {
				while (finish && x->h) surrounded(&w, how(&w), [&]() { std::exchange(x->h, nullptr).resume(); });
				if (finish && x->started) CHECK(x->done && x->waiter.h.done(), "fiber did not end");
				if (coin()) surrounded(&w, how(&w), [&]() { x->f.reset(); });
				else surrounded(&w, how(&w), [&]() { *x->f = fiber<void>(); });
				if (x->waiter.h) x->waiter.h.destroy();
			}
			w.f.clear();
			vrt_count("switches", w.switches);
			vrt_count("with_canaries", w.canaries);
			vrt_count("inside_handlers", w.in_handlers);
			vrt_count("while_unwinding", w.unwinding);
			vrt_count("on_other_threads", w.threads);
			vrt_count("continued_on_another_thread", w.migrated);
			vrt_sig(w.switches * 1000 + w.in_handlers * 10 + n);
			if (w.switches > 1) vrt_nontrivial();
		}
		watch_end();
		set_fp(before);
		check_quiescent();
	}
	void switches() { switches_with(false); }
	void migrate() { switches_with(true); }
	// ---------------------------------------------------------------- contexts, any to any
#ifdef C28_NO_RAW
	// the functions below the public interface look different now
	void raw() { switches(); }
#else
	struct raw_ctx {
		asyncpp::detail::fiber_context c{};
		asyncpp::detail::stack_context s{};
		int id = 0, entered = 0, switches = 0;
	};
	raw_ctx* g_raw;
	int g_nraw, g_rbudget;
	void raw_loop(raw_ctx* me) {
		while (true) {
			if (coin(3)) set_fp(rnd_fp());
			fpenv e = get_fp();
			int to = g_rbudget-- > 0 ? (int)rnd(g_nraw) : 0;
			if (to == me->id) {
				if (!me->id && g_rbudget <= 0) return;
				continue;
			}
			raw_ctx* o = &g_raw[to];
			me->switches++;
			with_canaries([&]() { asyncpp::detail::fiber_swapcontext(&me->c, &o->c); });
			check_fp(e, "after a switch between contexts");
			if (me->id == 0 && g_rbudget <= 0) return;
		}
	}
	void raw() {
		reset_globals();
		fpenv before = get_fp();
		set_fp(usual);
		watch_reset();
		raw_ctx all[6];
		g_raw = all;
		g_nraw = 2 + (int)rnd(5);
		g_rbudget = 5 + (int)rnd(60);
		for (int i = 0; i < g_nraw; i++) {
			all[i].id = i;
			if (!i) continue;
			size_t size = 20000 + rnd(60000);
			CHECK(asyncpp::detail::fiber_allocate_stack(all[i].s, size), "no stack");
			CHECK(asyncpp::detail::fiber_makecontext(
					  &all[i].c, all[i].s,
					  [](void* p) {
						  raw_ctx* me = (raw_ctx*)p;
						  CHECK((uintptr_t)__builtin_frame_address(0) % 16 == 0, "stack of a context is misaligned");
						  CHECK(me >= g_raw && me < g_raw + g_nraw && (me - g_raw) == me->id && ++me->entered == 1, "argument of a context");
						  CHECK(get_fp() == usual, "a context starts with floating point control %x/%x", get_fp().mxcsr, get_fp().cw);
						  raw_loop(me);
						  vrt_fail("oracle", "context 0 expected");
					  },
					  &all[i]),
				  "no context");
		}
		raw_loop(&all[0]);
		int sw = 0;
		for (int i = 0; i < g_nraw; i++) sw += all[i].switches;
		for (int i = 1; i < g_nraw; i++) {
			asyncpp::detail::fiber_destroy_context(&all[i].c);
			CHECK(asyncpp::detail::fiber_deallocate_stack(all[i].s), "stack not released");
		}
		watch_end();
		set_fp(before);
		vrt_count("raw_switches", sw);
		vrt_sig(sw);
		if (sw > 2) vrt_nontrivial();
		check_quiescent();
	}
#endif
	// ---------------------------------------------------------------- stacks
	struct big {
		world* w;
		fx* x;
		size_t size;
		char *lo = nullptr, *hi = nullptr;
	};
	__attribute__((noinline)) void use_all(big* b) {
		size_t n = b->size - 6000; // the rest is for calls
		char* p = (char*)alloca(n);
		CHECK((uintptr_t)p % 16 == 0, "stack of a fiber is misaligned");
		b->lo = p;
		b->hi = p + n;
		u64 s = (u64)b->x->id;
		for (size_t i = 0; i < n; i++) p[i] = (char)((i * 7 + s * 31) ^ (i >> 8));
		for (int k = 0; k < 2; k++) {
			fib_await parker{b->w, b->x};
			for (size_t i = 0; i < n; i++) CHECK(p[i] == (char)((i * 7 + s * 31) ^ (i >> 8)), "stack of a fiber was overwritten");
		}
	}
	void stacks() {
		reset_globals();
		watch_reset();
		{
			world w;
			w.resumers.push_back(get_fp());
			int n = 1 + (int)rnd(6);
			std::vector<std::unique_ptr<big>> b;
			for (int i = 0; i < n; i++) {
				w.f.push_back(std::make_unique<fx>());
				fx* x = w.f.back().get();
				x->id = i;
				size_t size = 4096 * (3 + rnd(30));
				switch (rnd(4)) {
				case 0: size++; break;
				case 1: size--; break;
				case 2: size += rnd(4096); break;
				}
				if (coin(20)) size += 5 << 20;
				b.push_back(std::make_unique<big>(big{&w, x, size}));
				vrt_sig(size);
				x->f.emplace([b = b.back().get()]() { use_all(b); }, size);
			}
			for (auto& x : w.f) x->waiter = await_it(&*x->f);
			for (auto& p : b)
				for (auto& q : b)
					if (p != q) CHECK(p->hi <= q->lo || q->hi <= p->lo, "stacks overlap");
			for (auto& p : b) {
				region* r = region_of(p->lo);
				if (r) CHECK(p->lo >= r->a && p->hi <= r->a + r->n, "stack is not inside its mapping");
			}
			for (int i = n * 2; i > 0; i--) {
				fx* x = w.f[rnd(n)].get();
				if (x->h) std::exchange(x->h, nullptr).resume();
			}
			for (auto& x : w.f) {
				if (x->h && coin()) std::exchange(x->h, nullptr).resume();
				x->f.reset();
				x->waiter.h.destroy();
			}
			vrt_count("stacks", n);
			vrt_nontrivial();
		}
		watch_end();
		check_quiescent();
	}
	// ---------------------------------------------------------------- running out of stack
	char *volatile g_low, *volatile g_first, *volatile g_up;
	size_t g_want, g_step;
	region* g_mine;
	void on_fault(int, siginfo_t* si, void*) {
		char* a = (char*)si->si_addr;
		if (!g_mine) _exit(60);
		for (int i = 0; i < g_nreg; i++)
			if (!pads_ok(g_reg[i])) _exit(50);			   // something else was overwritten
		if (a < g_mine->a || a >= g_mine->a + g_mine->n) _exit(51); // not a guard page of this stack
		if (g_up) {
			if (a < g_up || a - g_up > 16384) _exit(52);
			_exit(7);
		}
		if (a >= g_low) _exit(52);
		if (g_first - a + 3000 + (long)g_step < (long)g_want) _exit(53); // too early
		_exit(7);
	}
	template<int N>
	__attribute__((noinline)) int recurse(int n) {
		volatile char buf[N];
		buf[0] = (char)n;
		buf[N - 1] = (char)n;
		if ((char*)buf < g_low) g_low = (char*)buf;
		int r = recurse<N>(n + 1);
		return r + buf[0];
	}
	void guard() {
		reset_globals();
		size_t size = 8192 + rnd(100000);
		int kind = (int)rnd(5);
		bool others = coin();
		vrt_sig(size * 10 + kind);
		int st = in_child([&]() {
			static char alt[65536];
			stack_t ss{};
			ss.ss_sp = alt;
			ss.ss_size = sizeof alt;
			sigaltstack(&ss, nullptr);
			struct sigaction sa {};
			sa.sa_sigaction = on_fault;
			sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
			sigaction(SIGSEGV, &sa, nullptr);
			sigaction(SIGBUS, &sa, nullptr);
			watch_reset();
			std::optional<fiber<void>> a, b;
			if (others) a.emplace([]() {});
			g_want = size;
			fiber<void> f(
				[&]() {
					char here;
					g_first = g_low = &here;
					g_mine = region_of(&here);
					switch (kind) {
					case 0: g_step = 40, recurse<8>(0); break;
					case 1: g_step = 300, recurse<200>(0); break;
					case 2: g_step = 1200, recurse<1000>(0); break;
					case 3: // the other end
						g_up = &here;
						for (volatile char* p = &here;; p = p + 1) *p = *p;
					default: g_step = 3300, recurse<3000>(0); break;
					}
				},
				size);
			if (others) b.emplace([]() {});
			await_it(&f);
			_exit(61);
		});
		const char* what = st == 50	   ? "memory beyond the stack was overwritten"
						   : st == 51 || st == 60 ? "the fault was not in a guard page of the stack"
						   : st == 52  ? "fault inside the stack"
						   : st == 53  ? "the stack is smaller than requested"
						   : st == 61  ? "endless recursion came to an end"
									   : "the process died otherwise";
		CHECK(st == 7, "running out of a stack of %zu bytes: %s (%d)", size, what, st);
		vrt_count("overflows", 1);
		vrt_nontrivial();
		check_quiescent();
	}
	// ---------------------------------------------------------------- no memory for stacks
	void failures() {
		reset_globals();
		watch_reset();
		{
			std::vector<fiber<void>> keep;
			int failed = 0;
			for (int i = 0; i < 6; i++) {
				int kind = (int)rnd(3);
				g_maps = g_prots = 0;
				g_fail_map = kind == 1 ? (int)rnd(2) : -1;
				g_fail_prot = kind == 2 ? (int)rnd(3) : -1;
				int live = live_regions(), objs = tracked::live();
				bool threw = false;
				try {
					if (coin()) keep.emplace_back([t = tracked(1)]() { t.get(); }, 10000 + rnd(50000));
					else fiber<tracked>([t = tracked(1)]() { return t; });
				} catch (const std::bad_alloc&) { threw = true; }
				bool hit = (g_fail_map >= 0 && g_maps > g_fail_map) || (g_fail_prot >= 0 && g_prots > g_fail_prot);
				CHECK(threw == hit, threw ? "bad_alloc" : "a fiber without its stack or guard pages was created");
				if (threw) {
					CHECK(live_regions() == live && tracked::live() == objs, "failure to create a fiber left something behind");
					failed++;
				}
			}
			g_fail_map = g_fail_prot = -1;
			for (auto& f : keep) {
				auto c = await_it(&f);
				CHECK(c.h.done(), "fiber did not end");
				c.h.destroy();
			}
			vrt_count("failures", failed);
			vrt_sig(failed * 100 + keep.size());
			if (failed) vrt_nontrivial();
		}
		watch_end();
		check_quiescent();
	}
} // namespace
SCENARIOS({"switches", switches, 0}, {"migrate", migrate, 0}, {"raw", raw, 0}, {"stacks", stacks, 0}, {"guard", guard, 0}, {"failures", failures, 0})
