// Native runtime: the interface of vrt.h for programs built with ASan + UBSan and run as they are
// (real threads, no controlled schedule). Used for single-threaded random-program checks.
#include "vrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <signal.h>
#include <sys/mman.h>
#include <atomic>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <unordered_set>
extern "C" {
// absent from plain builds
__attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));
__attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
}
namespace {
	using u64 = uint64_t;
	u64 mix(u64 a, u64 b) {
		u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	u64 strhash(const char* s) {
		u64 h = 1469598103934665603ull;
		for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
		return h;
	}
	FILE* g_out;
	const vrt_scenario* g_sc;
	u64 g_index, g_seed, g_state, g_sig;
	bool g_nontriv, g_leaks_ok, g_active;
	u64 T_exec, T_nontriv;
	char g_log[16384];
	size_t g_logn;
	struct cnt {
		const char* key;
		u64 n;
	} g_cnt[256];
	int g_ncnt;
	thread_local int t_ignore;
	// live blocks of the current execution: open addressing, never grows past the table
	const size_t LSZ = 1 << 16;
	const volatile void** g_live;
	size_t g_nlive;
	std::atomic_flag g_lk = ATOMIC_FLAG_INIT;
	void lk() {
		while (g_lk.test_and_set(std::memory_order_acquire)) {}
	}
	void ul() { g_lk.clear(std::memory_order_release); }
	size_t slot(const volatile void* p) { return (mix((u64)p, 7)) & (LSZ - 1); }
	void on_malloc(const volatile void* p, size_t) {
		if (!g_active || t_ignore || !p) return;
		lk();
		if (g_nlive < LSZ / 2) {
			size_t s = slot(p);
			while (g_live[s]) s = (s + 1) & (LSZ - 1);
			g_live[s] = p;
			g_nlive++;
		}
		ul();
	}
	void on_free(const volatile void* p) {
		if (!g_active || !p) return;
		lk();
		size_t s = slot(p);
		while (g_live[s] && g_live[s] != p) s = (s + 1) & (LSZ - 1);
		if (g_live[s]) {
			g_nlive--;
			g_live[s] = nullptr;
			size_t k = (s + 1) & (LSZ - 1);
			while (g_live[k]) { // reinsert the cluster
				auto* q = g_live[k];
				g_live[k] = nullptr;
				size_t z = slot(q);
				while (g_live[z]) z = (z + 1) & (LSZ - 1);
				g_live[z] = q;
				k = (k + 1) & (LSZ - 1);
			}
		}
		ul();
	}
	void json_str(FILE* f, const char* s) {
		fputc('"', f);
		for (; *s; s++) {
			unsigned char c = (unsigned char)*s;
			if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
			else if (c == '\n') fputs("\\n", f);
			else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
			else fputc(c, f);
		}
		fputc('"', f);
	}
	std::unordered_set<u64>* g_sigs;
	void write_stats() {
		fprintf(g_out, "{\"type\":\"stats\",\"scenario\":\"%s\",\"executions\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"counters\":{", g_sc->name, (unsigned long long)T_exec,
				(unsigned long long)T_nontriv, (unsigned long long)g_sigs->size());
		for (int i = 0; i < g_ncnt; i++) fprintf(g_out, "%s\"%s\":%llu", i ? "," : "", g_cnt[i].key, (unsigned long long)g_cnt[i].n);
		fprintf(g_out, "}}\n");
		fflush(g_out);
	}
	std::atomic<int> g_failing;
	void emit(const char* kind, const char* msg, int skip = 0) {
		g_active = false;
		void* bt[48];
		int n = kind[0] == 's' ? 0 : backtrace(bt, 48);
		fprintf(g_out, "{\"type\":\"fail\",\"scenario\":\"%s\",\"index\":%llu,\"seed\":%llu,\"kind\":\"%s\",\"msg\":", g_sc ? g_sc->name : "?", (unsigned long long)g_index,
				(unsigned long long)g_seed, kind);
		json_str(g_out, msg);
		fprintf(g_out, ",\"bt\":[");
		for (int i = skip; i < n; i++) fprintf(g_out, "%s\"%lx\"", i > skip ? "," : "", (unsigned long)bt[i] - 1);
		fprintf(g_out, "],\"log\":");
		json_str(g_out, g_log);
		fprintf(g_out, "}\n");
		write_stats();
		fflush(g_out);
	}
	void on_death() {
		if (g_failing.exchange(1)) return;
		emit("sanitizer", "sanitizer report");
		_exit(10);
	}
	void on_signal(int sig) {
		if (g_failing.exchange(1)) _exit(94);
		char b[64];
		snprintf(b, sizeof b, "signal %d", sig);
		emit(sig == SIGALRM ? "wall" : sig == SIGABRT ? "abort" : "signal", b);
		_exit(sig == SIGALRM ? 11 : 10);
	}
	std::atomic<u64> g_step;
	std::atomic<int> g_tids;
	thread_local int t_tid = -1;
	void run_one(u64 seed) {
		g_seed = seed;
		for (int attempt = 0;; attempt++) {
			g_state = seed;
			g_sig = 0x1234;
			g_nontriv = false;
			g_leaks_ok = (g_sc->flags & VRT_NOLEAK) != 0;
			g_logn = 0;
			g_log[0] = 0;
			memset((void*)g_live, 0, LSZ * sizeof(void*));
			g_nlive = 0;
			g_active = true;
			g_sc->fn();
			g_active = false;
			if (g_leaks_ok || g_nlive == 0) break;
			// one-time initialisations happen once: a leak is one that repeats
			if (attempt == 3) {
				char b[96];
				snprintf(b, sizeof b, "%zu allocation(s) of this execution never freed", g_nlive);
				g_failing = 1;
				emit("leak", b);
				_exit(10);
			}
		}
		T_exec++;
		if (g_nontriv) {
			T_nontriv++;
			g_sigs->insert(g_sig);
		}
	}
} // namespace
extern "C" {
uint64_t vrt_rand64() {
	u64 z = (g_state += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
void vrt_ignore_begin() { t_ignore++; }
void vrt_ignore_end() { t_ignore--; }
void vrt_fail(const char* kind, const char* fmt, ...) {
	if (g_failing.exchange(1)) _exit(93);
	static char msg[8192];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(msg, sizeof msg, fmt, ap);
	va_end(ap);
	emit(kind, msg, 1);
	_exit(10);
}
void vrt_log(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	if (g_logn + 300 < sizeof g_log) {
		int n = vsnprintf(g_log + g_logn, 280, fmt, ap);
		if (n > 279) n = 279;
		g_logn += n;
		g_log[g_logn++] = '\n';
		g_log[g_logn] = 0;
	}
	va_end(ap);
}
void vrt_count(const char* key, uint64_t n) {
	for (int i = 0; i < g_ncnt; i++)
		if (g_cnt[i].key == key || !strcmp(g_cnt[i].key, key)) {
			g_cnt[i].n += n;
			return;
		}
	if (g_ncnt < 256) g_cnt[g_ncnt++] = {key, n};
}
void vrt_nontrivial() { g_nontriv = true; }
void vrt_sig(uint64_t v) { g_sig = mix(g_sig, v); }
uint64_t vrt_now_ns() {
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (u64)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
uint64_t vrt_step() { return ++g_step; }
int vrt_tid() {
	if (t_tid < 0) t_tid = g_tids++;
	return t_tid;
}
void vrt_yield() { sched_yield(); }
void vrt_sleep_ns(uint64_t ns) {
	timespec ts{(time_t)(ns / 1000000000ull), (long)(ns % 1000000000ull)};
	nanosleep(&ts, nullptr);
}
int vrt_switches() { return 0; }
uint32_t vrt_stamp() { return (uint32_t)++g_step; }
bool vrt_hb(uint32_t a, uint32_t b) { return a < b; }
bool vrt_stale_mode() { return false; }
bool vrt_timefuzz() { return false; }
size_t vrt_live_blocks() { return g_nlive; }
size_t vrt_live_maps() { return 0; }
size_t vrt_live_fibers() { return 0; }
bool vrt_is_live(const void* p) {
	lk();
	size_t s = slot(p);
	while (g_live[s] && g_live[s] != p) s = (s + 1) & (LSZ - 1);
	bool r = g_live[s] != nullptr;
	ul();
	return r;
}
void vrt_expect_leaks() { g_leaks_ok = true; }
void vrt_acquire_release(void*) {}
void vrt_child() { // in a forked child: do not report
	g_active = false;
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = SIG_DFL;
	for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
}
}
int vrt_main(int argc, char** argv, const vrt_scenario* tab, size_t n) {
	const char *name = nullptr, *outp = nullptr, *sigout = nullptr;
	u64 base = 1, start = 0, count = 100, samples = 0, wall = 0, one = 0;
	bool haveone = false;
	for (int i = 1; i < argc; i++) {
		auto arg = [&](const char* k) -> const char* { return !strcmp(argv[i], k) && i + 1 < argc ? argv[++i] : nullptr; };
		const char* v;
		if (!strcmp(argv[i], "--list")) {
			for (size_t k = 0; k < n; k++) printf("%s\n", tab[k].name);
			return 0;
		} else if ((v = arg("--scenario"))) name = v;
		else if ((v = arg("--base"))) base = strtoull(v, 0, 0);
		else if ((v = arg("--start"))) start = strtoull(v, 0, 0);
		else if ((v = arg("--count"))) count = strtoull(v, 0, 0);
		else if ((v = arg("--samples"))) samples = strtoull(v, 0, 0);
		else if ((v = arg("--out"))) outp = v;
		else if ((v = arg("--sigs"))) sigout = v;
		else if ((v = arg("--wall"))) wall = strtoull(v, 0, 0);
		else if ((v = arg("--seed"))) {
			one = strtoull(v, 0, 0);
			haveone = true;
			count = 1;
		}
	}
	g_out = outp ? fopen(outp, "w") : stdout;
	if (!g_out) return 95;
	for (size_t k = 0; k < n; k++)
		if (name && !strcmp(tab[k].name, name)) g_sc = &tab[k];
	if (!g_sc) return 96;
	g_live = (const volatile void**)mmap(nullptr, LSZ * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	g_sigs = new std::unordered_set<u64>;
	{
		void* bt[4];
		backtrace(bt, 4);
	}
	if (__sanitizer_set_death_callback) {
		__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
		__sanitizer_set_death_callback(on_death);
	}
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_signal;
	for (int s : {SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
	if (!__sanitizer_set_death_callback)
		for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, nullptr);
	if (wall) alarm((unsigned)wall);
	for (u64 i = 0; i < count; i++) {
		g_index = start + i;
		run_one(haveone ? one : mix(mix(base, strhash(g_sc->name)), start + i));
		if (samples) {
			samples--;
			fprintf(g_out, "{\"type\":\"sample\",\"scenario\":\"%s\",\"seed\":%llu,\"log\":", g_sc->name, (unsigned long long)g_seed);
			json_str(g_out, g_log);
			fprintf(g_out, "}\n");
		}
	}
	write_stats();
	if (sigout) {
		FILE* f = fopen(sigout, "wb");
		if (f) {
			for (u64 v : *g_sigs) fwrite(&v, 8, 1, f);
			fclose(f);
		}
	}
	fflush(g_out);
	return 0;
}
