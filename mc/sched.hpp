// Controlled execution of two threads of the real code, for checks built in mode "sched".
//
// The library and the driver are compiled with the compiler's thread instrumentation, but this file
// takes the place of its runtime.  One thread runs at a time.  Every plain access to memory the
// threads can share is checked against a happens-before order kept in vector clocks; at every
// synchronisation operation (atomic access, guard of a function's static, mutex, once) on an object
// both threads use the schedule decides who goes on.  A program without data races behaves in every
// interleaving as in one that switches at those operations only.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <locale.h>
#include <pthread.h>
#include <regex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <stddef.h>
#include <functional>
#include <new>
#include <string>
#define NT __attribute__((no_sanitize_thread))

namespace sched {

enum { ARENA = 64 << 20, MAXPLAN = 4, MAXHOT = 8192, TEXT = 1 << 18, SYNCS = 1 << 17, PSEUDO = 64 };

struct Out {                         // filled in by the child
	int ended;                         // both threads ran to their end
	int npoints, nhot, late, races, deadlock, switches;
	int at[MAXPLAN];
	long accesses, syncs;
	unsigned len[2]; char res[2][TEXT];
	char race[3000];
	uintptr_t hot[MAXHOT];
};
struct Plan { int first; int n; int at[MAXPLAN]; bool solo; };

struct Cell { uint32_t w[2], r[2], wpc[2], rpc[2]; };
struct Sync { uintptr_t key; uint32_t vc[2], vs[2]; unsigned char mask, guard; int owner, depth; };

static __thread int tid = -1;
static __thread int in_rt = 0;
static bool live = false;
static uint32_t vc[2][2];
// The same without what counting up or down orders.  A count says when an object made at run time may go; that
// it was touched in between does not protect a static one, and would hide most of what is wrong with it.
static uint32_t vs[2][2];
static sem_t baton[2];
static volatile int finished[2], blocked[2]; static uintptr_t waits[2];
static char *arena[3]; static size_t used[3]; static bool setting_up = false;   // the third is for set_up
static Cell *sh_data, *sh_heap, *sh_arena;
static uintptr_t data_lo, data_hi, heap_lo, heap_hi;
static char pseudo[PSEUDO];          // stands for state inside other libraries
static Sync *syncs;
static uintptr_t early[4096]; static int nearly = 0;   // guards of what was set up before the threads
static uintptr_t hot[MAXHOT]; static int nhot = 0;
static Plan plan; static int planpos, spin;
static Out *out;
static void (*set_up)() = 0;           // runs in the child before its threads

extern "C" char __data_start, _end, __executable_start;

NT static Cell *cell(uintptr_t a) {
	if (a >= (uintptr_t)arena[0] && a < (uintptr_t)arena[0] + 3 * (size_t)ARENA) return sh_arena + (a - (uintptr_t)arena[0]);
	if (a >= data_lo && a < data_hi) return sh_data + (a - data_lo);
	if (a >= heap_lo && a < heap_hi) return sh_heap + (a - heap_lo);
	return 0;
}
NT static bool is_hot(uintptr_t k) {
	int lo = 0, hi = nhot;
	while (lo < hi) { int m = (lo + hi) / 2; if (hot[m] < k) lo = m + 1; else hi = m; }
	return lo < nhot && hot[lo] == k;
}
NT static void where(uint32_t pc, char *to, size_t n) {
	Dl_info i; void *p = (char *)&__executable_start + pc;
	if (dladdr(p, &i) && i.dli_sname) snprintf(to, n, "%s+%ld", i.dli_sname, (long)((char *)p - (char *)i.dli_saddr));
	else snprintf(to, n, "exe+0x%x", pc);
}
NT static void race(uintptr_t a, const char *mine, void *pc, const char *theirs, uint32_t theirpc) {
	if (out->races++) return;
	char w1[400], w2[400], d[400]; Dl_info i;
	where((uint32_t)((char *)pc - (char *)&__executable_start), w1, sizeof(w1));
	where(theirpc, w2, sizeof(w2));
	if (a >= (uintptr_t)pseudo && a < (uintptr_t)pseudo + PSEUDO) snprintf(d, sizeof(d), "process-wide state of a C library function");
	else if (dladdr((void *)a, &i) && i.dli_sname && a >= data_lo && a < data_hi) snprintf(d, sizeof(d), "%s+%ld", i.dli_sname, (long)(a - (uintptr_t)i.dli_saddr));
	else snprintf(d, sizeof(d), "%s", a >= data_lo && a < data_hi ? "a static object" : "heap memory");
	snprintf(out->race, sizeof(out->race), "%s of %s by thread %d in %s is not ordered with a %s by the other thread in %s", mine, d, tid, w1, theirs, w2);
}
NT static inline bool on() { return tid >= 0 && live && !in_rt; }
NT static void access(uintptr_t a, size_t n, bool wr, void *pc) {
	++out->accesses;
	int t = tid, u = 1 - t;
	uint32_t now = vc[t][t], known = a >= data_lo && a < data_hi ? vs[t][u] : vc[t][u], p = (uint32_t)((char *)pc - (char *)&__executable_start);
	Cell *c = n ? cell(a) : 0;
	if (!c || cell(a + n - 1) != c + (n - 1)) return;   // its own stack, or memory of another library
	for (size_t k = 0; k < n; ++k, ++c) {
		if ((wr ? c->w[t] : c->r[t]) == now) continue;    // whoever came in between has been checked against this
		if (c->w[u] > known) race(a + k, wr ? "a write" : "a read", pc, "write", c->wpc[u]);
		if (wr && c->r[u] > known) race(a + k, "a write", pc, "read", c->rpc[u]);
		if (wr) { c->w[t] = now; c->wpc[t] = p; } else { c->r[t] = now; c->rpc[t] = p; }
	}
}
NT static inline void acc(const volatile void *a, size_t n, bool wr, void *pc) { if (on()) { ++in_rt; access((uintptr_t)a, n, wr, pc); --in_rt; } }

NT static Sync *sync(uintptr_t k) {
	k &= ~(uintptr_t)3;
	for (size_t h = (k * 0x9e3779b97f4a7c15ull) >> 40;; ++h) {
		Sync &s = syncs[h % SYNCS];
		if (s.key == k) return &s;
		if (!s.key) { s.key = k; s.owner = -1; return &s; }
	}
}
NT static void hand(int to) {
	++out->switches;
	int me = tid;
	sem_post(&baton[to]);
	if (!finished[me]) { while (sem_wait(&baton[me])) {} }
}
NT static void stuck() { out->deadlock = 1; _exit(7); }
// A place where the other thread may go on instead.
NT static void point(uintptr_t k) {
	k &= ~(uintptr_t)3;
	Sync *s = sync(k); s->mask |= 1 << tid; ++out->syncs;
	if (plan.solo || !is_hot(k)) return;
	int u = 1 - tid;
	int here = out->npoints++;
	bool can = !finished[u] && !blocked[u];
	if (planpos < plan.n && here == plan.at[planpos]) { out->at[planpos++] = 1; spin = 0; if (can) hand(u); return; }
	if (can && ++spin > 200000) { spin = 0; hand(u); }   // a thread that waits for the other by looping
}
NT static void block(uintptr_t k) {
	int u = 1 - tid;
	blocked[tid] = 1; waits[tid] = k;
	if (plan.solo || finished[u] || blocked[u]) stuck();
	hand(u);
}
NT static void wake(uintptr_t k) { int u = 1 - tid; if (blocked[u] && waits[u] == k) blocked[u] = 0; }
NT static void join(Sync *s, bool count = false) {
	for (int i = 0; i < 2; ++i) {
		if (s->vc[i] > vc[tid][i]) vc[tid][i] = s->vc[i];
		if (!count && s->vs[i] > vs[tid][i]) vs[tid][i] = s->vs[i];
	}
}
NT static void publish(Sync *s, bool replace, bool count = false) {
	vs[tid][tid] = vc[tid][tid];
	for (int i = 0; i < 2; ++i) {
		if (replace || vc[tid][i] > s->vc[i]) s->vc[i] = vc[tid][i];
		if (!count && (replace || vs[tid][i] > s->vs[i])) s->vs[i] = vs[tid][i];
	}
	++vc[tid][tid];
}
NT static bool acquires(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
NT static bool releases(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
enum { LOAD = 1, STORE = 2, RMW = 3, COUNT = 7 };
NT static void atomic_check(uintptr_t a, int n, void *pc) {
	int t = tid, u = 1 - t;
	for (int k = 0; k < n; ++k) { Cell *c = cell(a + k); if (c && c->w[u] > vc[t][u]) { race(a + k, "an atomic access", pc, "write", c->wpc[u]); } }
}
// A guard that says its object is ready never changes again: reading it is no place to switch.
NT static bool ready(uintptr_t a, int n) { return n == 1 && *(volatile unsigned char *)a == 1 && sync(a)->guard == 2; }
NT static void before(uintptr_t a, int n, void *pc) { ++in_rt; if (ready(a, n)) sync(a)->mask |= 1 << tid; else point(a); if (n > 4) sync(a + 4)->mask |= 1 << tid; atomic_check(a, n, pc); --in_rt; }
NT static void after(uintptr_t a, int n, int kind, int o) {
	++in_rt;
	for (int k = 0; k < n; k += 4) {
		Sync *s = sync(a + k);
		if ((kind & LOAD) && acquires(o)) join(s, kind == COUNT);
		if ((kind & STORE)) {
			if (releases(o)) publish(s, kind == STORE, kind == COUNT);
			else if (kind == STORE) s->vc[0] = s->vc[1] = s->vs[0] = s->vs[1] = 0;
		}
	}
	--in_rt;
}

// ---- a pair of operations in a process of its own
struct Start { int t; std::function<std::string()> f; };
NT static void *body(void *p) {
	Start *s = (Start *)p; int t = s->t;
	tid = t;
	++in_rt; while (sem_wait(&baton[t])) {} --in_rt;
	{
		std::string r;
		try { r = s->f(); } catch (const std::exception &e) { r = std::string("exception ") + e.what(); } catch (...) { r = "exception"; }
		++in_rt;
		unsigned n = r.size() < TEXT ? r.size() : TEXT;
		out->len[t] = n;
		for (unsigned k = 0; k < n; ++k) out->res[t][k] = r[k];
		--in_rt;
	}
	++in_rt;
	finished[t] = 1;
	if (!plan.solo) { int u = 1 - t; if (!finished[u]) { if (blocked[u]) stuck(); sem_post(&baton[u]); } }
	--in_rt; tid = -1;
	return 0;
}
NT static void *map(size_t n, bool shared = false) {
	void *p = mmap(0, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { fprintf(stderr, "mmap of %zu failed\n", n); _exit(9); }
	return p;
}
// Runs the two operations under a plan.  False: the process died; status says how.
NT static bool execute(const std::function<std::string()> &a, const std::function<std::string()> &b, const Plan &p, int &status) {
	static char *place = 0;
	if (!out) { out = (Out *)map(sizeof(Out), true); place = (char *)map(3 * (size_t)ARENA); }
	memset(out, 0, offsetof(Out, res)); out->res[0][0] = out->res[1][0] = 0; out->race[0] = 0;
	pid_t pid = fork();
	if (!pid) {
		for (int t = 0; t < 3; ++t) { arena[t] = place + (size_t)t * ARENA; used[t] = 0; }
		if (set_up) { setting_up = true; set_up(); setting_up = false; }
		data_lo = (uintptr_t)&__data_start; data_hi = (uintptr_t)&_end;
		FILE *maps = fopen("/proc/self/maps", "r"); char line[512]; heap_lo = heap_hi = 0;
		while (maps && fgets(line, sizeof(line), maps)) if (strstr(line, "[heap]")) { unsigned long x, y; sscanf(line, "%lx-%lx", &x, &y); heap_lo = x; heap_hi = y; }
		if (maps) fclose(maps);
		sh_data = (Cell *)map((data_hi - data_lo) * sizeof(Cell));
		if (heap_hi) sh_heap = (Cell *)map((heap_hi - heap_lo) * sizeof(Cell));
		sh_arena = (Cell *)map(3 * (size_t)ARENA * sizeof(Cell));
		madvise(sh_arena, 3 * (size_t)ARENA * sizeof(Cell), MADV_HUGEPAGE);
		syncs = (Sync *)map(SYNCS * sizeof(Sync));
		plan = p; planpos = spin = 0;
		for (int t = 0; t < 2; ++t) { sem_init(&baton[t], 0, 0); vc[t][t] = vs[t][t] = 1; vc[t][1 - t] = vs[t][1 - t] = 0; }
		for (int k = 0; k < nearly; ++k) sync(early[k])->guard = 2;
		Start s[2] = {{0, a}, {1, b}};
		pthread_t th[2];
		alarm(60);
		freopen("/dev/null", "w", stderr);
		live = true;
		pthread_create(&th[0], 0, body, &s[0]);
		if (!p.solo) pthread_create(&th[1], 0, body, &s[1]);
		sem_post(&baton[p.first]);
		pthread_join(th[0], 0);
		if (!p.solo) pthread_join(th[1], 0);
		live = false;
		for (size_t k = 0; k < SYNCS; ++k) if (syncs[k].key && syncs[k].mask == 3 && cell(syncs[k].key)) {
			if (!is_hot(syncs[k].key)) ++out->late;
			if (out->nhot < MAXHOT) out->hot[out->nhot++] = syncs[k].key;
		}
		out->ended = 1;
		_exit(0);
	}
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	return out->ended && WIFEXITED(status) && WEXITSTATUS(status) == 0;
}
} // namespace sched

// ---- the instrumentation's entry points
extern "C" {
#define PC __builtin_return_address(0)
NT void __tsan_init() {}
NT void __tsan_func_entry(void *) {}
NT void __tsan_func_exit() {}
#define RW(N) \
	NT void __tsan_read##N(void *a) { sched::acc(a, N, false, PC); } \
	NT void __tsan_write##N(void *a) { sched::acc(a, N, true, PC); } \
	NT void __tsan_unaligned_read##N(void *a) { sched::acc(a, N, false, PC); } \
	NT void __tsan_unaligned_write##N(void *a) { sched::acc(a, N, true, PC); } \
	NT void __tsan_volatile_read##N(void *a) { sched::acc(a, N, false, PC); } \
	NT void __tsan_volatile_write##N(void *a) { sched::acc(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NT void __tsan_read_range(void *a, size_t n) { sched::acc(a, n, false, PC); }
NT void __tsan_write_range(void *a, size_t n) { sched::acc(a, n, true, PC); }
NT void __tsan_vptr_update(void **a, void *v) { if (*a != v) sched::acc(a, 8, true, PC); }
NT void __tsan_vptr_read(void **a) { sched::acc(a, 8, false, PC); }

#define AT(B, T) \
	NT T __tsan_atomic##B##_load(const volatile T *a, int o) { bool c = sched::on(); if (c) sched::before((uintptr_t)a, sizeof(T), PC); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (c) sched::after((uintptr_t)a, sizeof(T), sched::LOAD, o); return r; } \
	NT void __tsan_atomic##B##_store(volatile T *a, T v, int o) { bool c = sched::on(); if (c) sched::before((uintptr_t)a, sizeof(T), PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if (c) sched::after((uintptr_t)a, sizeof(T), sched::STORE, o); } \
	NT int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int) { bool c = sched::on(); if (c) sched::before((uintptr_t)a, sizeof(T), PC); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (c) sched::after((uintptr_t)a, sizeof(T), sched::RMW, o); return r; } \
	NT int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, o, f); } \
	NT T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int o, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, o, f); return e; } \
	AR(B, T, exchange, __atomic_exchange_n, RMW) AR(B, T, fetch_add, __atomic_fetch_add, COUNT) AR(B, T, fetch_sub, __atomic_fetch_sub, COUNT) \
	AR(B, T, fetch_and, __atomic_fetch_and, RMW) AR(B, T, fetch_or, __atomic_fetch_or, RMW) AR(B, T, fetch_xor, __atomic_fetch_xor, RMW) AR(B, T, fetch_nand, __atomic_fetch_nand, RMW)
#define AR(B, T, NAME, F, KIND) NT T __tsan_atomic##B##_##NAME(volatile T *a, T v, int o) { bool c = sched::on(); if (c) sched::before((uintptr_t)a, sizeof(T), PC); T r = F(a, v, __ATOMIC_SEQ_CST); if (c) sched::after((uintptr_t)a, sizeof(T), sched::KIND, o); return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
NT void __tsan_atomic_thread_fence(int) {}
NT void __tsan_atomic_signal_fence(int) {}
size_t __sanitizer_get_current_allocated_bytes() { return 0; }

// ---- memory: each thread allocates from a place of its own and nothing is used twice
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
NT static void *take(size_t n, size_t align) {
	int t = sched::tid >= 0 ? sched::tid : 2; size_t &u = sched::used[t];
	size_t at = (u + 16 + align - 1) & ~(align - 1);
	if (at + n + 16 > sched::ARENA) { errno = ENOMEM; return 0; }
	char *p = sched::arena[t] + at;
	*(size_t *)(p - 16) = n;
	u = at + n;
	return p;
}
NT static bool mine(void *p) { return p >= sched::arena[0] && p < sched::arena[0] + 3 * (size_t)sched::ARENA && sched::arena[0]; }
NT static bool threaded() { return (sched::tid >= 0 && sched::live) || sched::setting_up; }
NT void *malloc(size_t n) { return threaded() ? take(n, 16) : __libc_malloc(n); }
NT void free(void *p) {
	if (!p) return;
	if (mine(p)) { if (sched::on()) { size_t n = *(size_t *)((char *)p - 16); sched::acc(p, n < 1024 ? n : 1024, true, PC); } return; }
	if (threaded()) return;
	__libc_free(p);
}
NT void *calloc(size_t a, size_t b) { return threaded() ? take(a * b, 16) : __libc_calloc(a, b); }
NT void *realloc(void *p, size_t n) {
	if (!threaded() && !mine(p)) return __libc_realloc(p, n);
	void *q = malloc(n);
	if (p && q) { size_t old = mine(p) ? *(size_t *)((char *)p - 16) : n; if (old > n) old = n; for (size_t k = 0; k < old; ++k) ((volatile char *)q)[k] = ((char *)p)[k]; free(p); }
	return q;
}
NT void *memalign(size_t a, size_t n) { return threaded() ? take(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
NT int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
NT void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }

// ---- statics of functions
NT int __cxa_guard_acquire(uint64_t *g) {
	volatile unsigned char *b = (unsigned char *)g;
	if (!sched::on()) { if (b[0]) return 0; b[1] = 1; return 1; }
	++sched::in_rt;
	for (;;) {
		sched::point((uintptr_t)g);
		sched::Sync *s = sched::sync((uintptr_t)g);
		if (b[0]) { sched::join(s); --sched::in_rt; return 0; }
		if (!b[1]) { b[1] = 1; sched::join(s); --sched::in_rt; return 1; }
		sched::block((uintptr_t)g);
	}
}
NT static void guard_end(uint64_t *g, bool done) {
	volatile unsigned char *b = (unsigned char *)g;
	bool c = sched::on();
	if (c) { ++sched::in_rt; sched::point((uintptr_t)g); }
	else if (done && !sched::live && sched::nearly < 4096) sched::early[sched::nearly++] = (uintptr_t)g;
	b[1] = 0; if (done) b[0] = 1;
	if (c) { if (done) sched::sync((uintptr_t)g)->guard = 2; sched::publish(sched::sync((uintptr_t)g), false); sched::wake((uintptr_t)g); --sched::in_rt; }
}
NT void __cxa_guard_release(uint64_t *g) { guard_end(g, true); }
NT void __cxa_guard_abort(uint64_t *g) { guard_end(g, false); }

// ---- locks
#define REAL(name) ({ static decltype(&name) f = 0; if (!f) f = (decltype(&name))dlsym(RTLD_NEXT, #name); f; })
NT static int take_lock(void *m, bool wait) {
	++sched::in_rt;
	for (;;) {
		sched::point((uintptr_t)m);
		sched::Sync *s = sched::sync((uintptr_t)m);
		if (s->owner < 0 || s->owner == sched::tid) { s->owner = sched::tid; ++s->depth; sched::join(s); --sched::in_rt; return 0; }
		if (!wait) { --sched::in_rt; return EBUSY; }
		sched::block((uintptr_t)m);
	}
}
NT static int drop_lock(void *m) {
	++sched::in_rt;
	sched::point((uintptr_t)m);
	sched::Sync *s = sched::sync((uintptr_t)m);
	if (s->depth > 0 && --s->depth == 0) { s->owner = -1; sched::publish(s, false); sched::wake((uintptr_t)m); }
	--sched::in_rt;
	return 0;
}
NT int pthread_mutex_lock(pthread_mutex_t *m) { return sched::on() ? take_lock(m, true) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_mutex_lock)(m); }
NT int pthread_mutex_trylock(pthread_mutex_t *m) { return sched::on() ? take_lock(m, false) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_mutex_trylock)(m); }
NT int pthread_mutex_unlock(pthread_mutex_t *m) { return sched::on() ? drop_lock(m) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_mutex_unlock)(m); }
NT int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return sched::on() ? take_lock(m, true) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_rwlock_rdlock)(m); }
NT int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return sched::on() ? take_lock(m, true) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_rwlock_wrlock)(m); }
NT int pthread_rwlock_unlock(pthread_rwlock_t *m) { return sched::on() ? drop_lock(m) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_rwlock_unlock)(m); }
NT int pthread_once(pthread_once_t *o, void (*f)()) {
	if (!sched::on()) { if (sched::live && sched::tid >= 0) { if (!*(int *)o) { f(); *(int *)o = 2; } return 0; } return REAL(pthread_once)(o, f); }
	++sched::in_rt;
	for (;;) {
		sched::Sync *s = sched::sync((uintptr_t)o);
		if (*(volatile int *)o != 2) sched::point((uintptr_t)o);
		if (*(volatile int *)o == 2) { sched::join(s); --sched::in_rt; return 0; }
		if (!s->guard) {
			s->guard = 1; --sched::in_rt;
			try { f(); } catch (...) { ++sched::in_rt; s->guard = 0; sched::wake((uintptr_t)o); --sched::in_rt; throw; }
			++sched::in_rt;
			*(volatile int *)o = 2; sched::publish(s, false); sched::wake((uintptr_t)o);
			--sched::in_rt; return 0;
		}
		sched::block((uintptr_t)o);
	}
}
NT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (!sched::on()) return sched::live && sched::tid >= 0 ? 0 : REAL(pthread_cond_wait)(c, m);
	drop_lock(m);
	++sched::in_rt; sched::sync((uintptr_t)c)->mask |= 1 << sched::tid; sched::block((uintptr_t)c); --sched::in_rt;
	return take_lock(m, true);
}
NT static int notify(pthread_cond_t *c) { ++sched::in_rt; sched::point((uintptr_t)c); sched::wake((uintptr_t)c); --sched::in_rt; return 0; }
NT int pthread_cond_signal(pthread_cond_t *c) { return sched::on() ? notify(c) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_cond_signal)(c); }
NT int pthread_cond_broadcast(pthread_cond_t *c) { return sched::on() ? notify(c) : sched::live && sched::tid >= 0 ? 0 : REAL(pthread_cond_broadcast)(c); }
NT int sched_yield() { if (sched::on() && !sched::plan.solo) { ++sched::in_rt; int u = 1 - sched::tid; if (!sched::finished[u] && !sched::blocked[u]) sched::hand(u); --sched::in_rt; } return 0; }

// ---- what C library functions do to memory on behalf of the code
#define RD(p, n) sched::acc(p, n, false, PC)
#define WR(p, n) sched::acc(p, n, true, PC)
NT static size_t len(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
NT static size_t nlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
#define W(R, NAME, PARAMS, ARGS, BEFORE) R __real_##NAME PARAMS; NT R __wrap_##NAME PARAMS { if (sched::on()) { BEFORE } return __real_##NAME ARGS; }
W(void *, memcpy, (void *d, const void *s, size_t n), (d, s, n), RD(s, n); WR(d, n);)
W(void *, memmove, (void *d, const void *s, size_t n), (d, s, n), RD(s, n); WR(d, n);)
W(void *, memset, (void *d, int c, size_t n), (d, c, n), WR(d, n);)
W(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), RD(a, n); RD(b, n);)
W(void *, memchr, (const void *a, int c, size_t n), (a, c, n), RD(a, n);)
W(size_t, strlen, (const char *s), (s), RD(s, len(s) + 1);)
W(int, strcmp, (const char *a, const char *b), (a, b), RD(a, len(a) + 1); RD(b, len(b) + 1);)
W(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), RD(a, nlen(a, n)); RD(b, nlen(b, n));)
W(int, strcasecmp, (const char *a, const char *b), (a, b), RD(a, len(a) + 1); RD(b, len(b) + 1);)
W(int, strncasecmp, (const char *a, const char *b, size_t n), (a, b, n), RD(a, nlen(a, n)); RD(b, nlen(b, n));)
W(char *, strcpy, (char *d, const char *s), (d, s), RD(s, len(s) + 1); WR(d, len(s) + 1);)
W(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n), RD(s, nlen(s, n)); WR(d, n);)
W(char *, strcat, (char *d, const char *s), (d, s), RD(s, len(s) + 1); WR(d + len(d), len(s) + 1);)
W(char *, strchr, (const char *s, int c), (s, c), RD(s, len(s) + 1);)
W(char *, strrchr, (const char *s, int c), (s, c), RD(s, len(s) + 1);)
W(char *, strstr, (const char *s, const char *t), (s, t), RD(s, len(s) + 1); RD(t, len(t) + 1);)
W(char *, strdup, (const char *s), (s), RD(s, len(s) + 1);)
W(double, strtod, (const char *s, char **e), (s, e), RD(s, len(s) + 1); RD(sched::pseudo, 1); if (e) WR(e, 8);)
W(long, strtol, (const char *s, char **e, int b), (s, e, b), RD(s, len(s) + 1); if (e) WR(e, 8);)
W(unsigned long, strtoul, (const char *s, char **e, int b), (s, e, b), RD(s, len(s) + 1); if (e) WR(e, 8);)
W(long long, strtoll, (const char *s, char **e, int b), (s, e, b), RD(s, len(s) + 1); if (e) WR(e, 8);)
W(unsigned long long, strtoull, (const char *s, char **e, int b), (s, e, b), RD(s, len(s) + 1); if (e) WR(e, 8);)
W(intmax_t, strtoimax, (const char *s, char **e, int b), (s, e, b), RD(s, len(s) + 1); if (e) WR(e, 8);)
W(uintmax_t, strtoumax, (const char *s, char **e, int b), (s, e, b), RD(s, len(s) + 1); if (e) WR(e, 8);)
W(double, atof, (const char *s), (s), RD(s, len(s) + 1); RD(sched::pseudo, 1);)
W(int, atoi, (const char *s), (s), RD(s, len(s) + 1);)
W(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f), RD(p, a * b);)
W(size_t, fread, (void *p, size_t a, size_t b, FILE *f), (p, a, b, f), WR(p, a * b);)
W(char *, setlocale, (int c, const char *l), (c, l), if (l) WR(sched::pseudo, 1); else RD(sched::pseudo, 1);)
W(struct lconv *, localeconv, (), (), RD(sched::pseudo, 1);)
W(char *, strtok, (char *s, const char *d), (s, d), WR(sched::pseudo + 1, 1);)
W(struct tm *, gmtime, (const time_t *t), (t), WR(sched::pseudo + 2, 1);)
W(struct tm *, localtime, (const time_t *t), (t), WR(sched::pseudo + 2, 1);)
W(char *, ctime, (const time_t *t), (t), WR(sched::pseudo + 2, 1);)
W(char *, asctime, (const struct tm *t), (t), WR(sched::pseudo + 2, 1);)
W(int, regcomp, (regex_t *r, const char *p, int f), (r, p, f), RD(p, len(p) + 1); WR(r, sizeof(*r));)
W(int, regexec, (const regex_t *r, const char *s, size_t n, regmatch_t *m, int f), (r, s, n, m, f), RD(r, sizeof(*r)); RD(s, len(s) + 1); if (m && n && !(f & REG_NOSUB)) WR(m, n * sizeof(*m));)
W(void, regfree, (regex_t *r), (r), WR(r, sizeof(*r));)
// libxml2's set-up and tear-down against its use
W(void, xmlCleanupParser, (), (), WR(sched::pseudo + 3, 1);)
W(void *, xmlReaderForIO, (void *a, void *b, void *c, const char *d, const char *e, int f), (a, b, c, d, e, f), RD(sched::pseudo + 3, 1);)
W(int, xmlTextReaderRead, (void *a), (a), RD(sched::pseudo + 3, 1);)
W(void *, xmlNewTextWriter, (void *a), (a), RD(sched::pseudo + 3, 1);)
int __real_vsnprintf(char *, size_t, const char *, va_list);
NT int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list a) {
	int r = __real_vsnprintf(d, n, f, a);
	if (sched::on()) { RD(f, len(f) + 1); RD(sched::pseudo, 1); if (n) { size_t w = (size_t)(r < 0 ? 0 : r) + 1; WR(d, w < n ? w : n); } }
	return r;
}
NT int __wrap_snprintf(char *d, size_t n, const char *f, ...) {
	va_list a; va_start(a, f); int r = __real_vsnprintf(d, n, f, a); va_end(a);
	if (sched::on()) { RD(f, len(f) + 1); RD(sched::pseudo, 1); if (n) { size_t w = (size_t)(r < 0 ? 0 : r) + 1; WR(d, w < n ? w : n); } }
	return r;
}
NT int __wrap_sprintf(char *d, const char *f, ...) {
	va_list a; va_start(a, f); int r = vsprintf(d, f, a); va_end(a);
	if (sched::on()) { RD(f, len(f) + 1); RD(sched::pseudo, 1); if (r >= 0) WR(d, (size_t)r + 1); }
	return r;
}
// the C++ library's trees: a change of one against whoever looks for something in it
#define INSERT _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
#define ERASE _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
#define W2(R, NAME, PARAMS, ARGS, BEFORE) W(R, NAME, PARAMS, ARGS, BEFORE)
W2(void, INSERT, (bool l, char *x, char *p, char *h), (l, x, p, h), WR(h + 8, 24);)
W2(void *, ERASE, (char *z, char *h), (z, h), WR(h + 8, 24);)
}
