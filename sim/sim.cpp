// Deterministic simulator runtime.
//  * simulated threads are fibers of this one process; the C++ thread, mutex, condition variable, clock, allocation and
//    file functions of the code under test reach the definitions below instead of libc's
//  * the code under test is compiled with -fsanitize=thread, whose callbacks are implemented here: each memory access is a
//    possible preemption point, is checked against a vector-clock happens-before relation and against the simulated heap
//  * every decision comes from one PRNG (generation) or from a list of deviations from the default policy (replay)
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <new>
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <deque>
#include <algorithm>
#include <memory>
#include <pthread.h>
#include <signal.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <cxxabi.h>
#include <xmmintrin.h>

extern "C" {
	void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
	void* __libc_memalign(size_t, size_t);
	extern char __data_start, _end;
	extern char __libc_single_threaded;
	void sim_switch(void** save, void* load);
	void sim_fiber_entry();
}
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8,%rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

namespace {
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

//------------------------------------------------------------------------------------------------
// PRNG
struct Rng {
	u64 s;
	explicit Rng(u64 x = 1) : s(x) {}
	u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool chance(double p) { return p > 0 && unit() < p; }
	u64 geom(double p) { if (p <= 0) return ~0ull >> 2; double u = unit(); return (u64)(std::log(1 - u) / std::log(1 - p)) + 1; }
};
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

//------------------------------------------------------------------------------------------------
// memory window: arena followed by fiber stacks, at a fixed address
const u64 W0 = 0x100000000000ull;
const u64 ARENA = 96ull << 20, STACK = 1ull << 20; const int MAXT = 48;
const u64 WSIZE = ARENA + STACK * MAXT;
inline bool inwin(u64 a) { return a - W0 < WSIZE; }
inline bool inarena(u64 a) { return a - W0 < ARENA; }

u8* g_live;            // one byte per 16 bytes of arena: count of valid bytes

struct Slot { u32 clk; u8 tid, mask, w, at; u32 pc; u32 pad; };
struct Cell { u32 gen; u32 n; Slot s[7]; u64 pad; };
static_assert(sizeof(Cell) == 128, "");
Cell* g_shadow; Cell* g_shadowG; u64 g_gl0, g_glsz;
u32 g_gen = 1;

struct VC {
	u32 c[MAXT];
	VC() { memset(c, 0, sizeof c); }
	void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
	void clear() { memset(c, 0, sizeof c); }
};

//------------------------------------------------------------------------------------------------
struct Dev { char k; int tid; u64 n; long arg; };

enum St { FREE, RUN, BLOCK, DONE };
struct SyncObj {
	int ord = 0;
	int owner = -1; int depth = 0;  // mutex / write lock owner
	int readers = 0; std::map<int, int> rd;
	VC vc, rvc;
	std::vector<int> waiters;       // lock waiters
	std::vector<int> cw;            // condition waiters
};
struct Thread {
	int id; St st = FREE; void* sp = nullptr; 
	void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
	u64 nev = 0, nwait = 0, nalloc = 0, nclk = 0, nio = 0, nsig = 0, nsys = 0; int wprio = 0, wnoboost = 0;
	u64 next_stop = 0;      // nev at which to consider a preemption
	u64 slice = 0;          // events since it was scheduled in
	int insim = 0, oracle = 0;
	bool signaled = false, detached = false, joined = false;
	u64 deadline = 0; bool timed = false; bool throwing = false, newing = false;
	u64 stall_until = 0;
	int prio = 0;
	VC vc, relf, acqf; bool has_acqf = false;
	void* eh[2] = { nullptr, nullptr };
	const char* why = ""; void* whyobj = nullptr;
	std::vector<int> joiners;
	std::string name;
	// replay cursor
	std::vector<Dev> dev; size_t di = 0; std::unordered_map<u64, long> devx; // the others by kind and position
};

struct Violation { bool set = false; std::string cls, detail, ctx; std::vector<std::string> frames, faultframes; };

struct Run {
	u64 seed = 0; std::string prop, scen; bool replay = false;
	std::vector<Dev> in;       // replay deviations
	std::vector<Dev> out;      // recorded deviations
	sim::Knobs k;
	Rng sched, work;
	u64 events = 0, now = 0, jump = 0, hash = 0, shash = 0, ctxsw = 0, syncops = 0, accesses = 0;
	u64 ops = 0; std::set<u64> dropops;
	std::vector<u64> pctpts; size_t pcti = 0; int lowprio = -1;
	Violation v;
	std::map<std::string, u64> probes, faults;
	std::string ctx;
	bool allocF = false, ioF = false, sysF = false; u64 nallocF = 0, nioF = 0, nsysF = 0; u64 prioclass = 0x20;
	u64 liveb = 0, livec = 0;
	std::vector<u64> faultpcs;
	bool noleakcheck = false;
};

Run* R = nullptr;
Thread T[MAXT]; int g_nt = 0;
Thread* cur = nullptr;
void* g_sched_sp = nullptr;
bool g_abandon = false;
std::unordered_map<u64, std::unique_ptr<SyncObj>>* g_sync = nullptr;
std::unordered_map<u64, VC>* g_atom = nullptr; std::vector<std::unique_ptr<SyncObj>>* g_grave = nullptr; // objects whose memory was released

struct In { Thread* t; In() : t(cur) { if (t) t->insim++; } ~In() { if (t) t->insim--; } };

//------------------------------------------------------------------------------------------------
// arena
u64 g_bump; std::vector<u64>* g_free[48]; std::deque<u64>* g_quar; u64 g_quarb;
std::vector<u64>* g_liveset; // only for leak reports
const u64 HDR = 16; struct Hdr { u64 size; u32 cls; u32 magic; };
std::unordered_map<u64, std::vector<u64>>* g_allocpcs = nullptr; bool g_trackallocs = false;

inline int clsof(u64 n) { // size class: powers of two with 4 steps
	u64 s = 32; int c = 0;
	while (c < 47) { for (int q = 0; q < 2; q++) { u64 z = s + (s / 2) * q; if (n <= z) return c; c++; } s *= 2; }
	return 47;
}
inline u64 clssize(int c) { u64 s = 32ull << (c / 2); return (c & 1) ? s + s / 2 : s; }

void collect(std::vector<u64>& v, void* fp0) {
	u64* fp = (u64*)fp0; int n = 0;
	while (fp && n++ < 60) {
		u64 a = (u64)fp;
		if (!(inwin(a) && a + 16 <= W0 + WSIZE)) break;
		u64 ra = fp[1]; if (!ra) break; v.push_back(ra);
		u64* nx = (u64*)fp[0]; if (nx <= fp) break; fp = nx;
	}
}

void* arena_alloc(size_t n, size_t al) {
	if (al < 16) al = 16; if (n > ARENA) return nullptr;
	u64 need = n + HDR + 16 + (al > 16 ? al : 0); int c = clsof(need); u64 sz = clssize(c);
	u64 raw;
	if (al == 16 && !g_free[c]->empty()) { raw = g_free[c]->back(); g_free[c]->pop_back(); }
	else {
		if (g_bump + sz > ARENA) return nullptr;
		raw = W0 + g_bump; g_bump += sz;
	}
	u64 p = raw + HDR; p = (p + al - 1) & ~(u64)(al - 1);
	Hdr* h = (Hdr*)(p - HDR); h->size = n; h->cls = (u32)c; h->magic = 0xA110C8ED;
	if (p != raw + HDR) { ((Hdr*)raw)->size = p - raw; h->cls = (u32)c | 0x100; *(u64*)(raw) = raw; h->magic = (u32)(p - raw); h->magic |= 0xA0000000u; }
	memset((void*)p, R->k.fill, n);
	u64 i = (p - W0) >> 4, full = n >> 4; memset(g_live + i, 16, full); if (n & 15) g_live[i + full] = n & 15;
	if (n == 0) g_live[i] = 0;
	u64 g = (p - W0) >> 3, e = (p - W0 + n + 7) >> 3; for (; g < e; g++) g_shadow[g].gen = 0;
	R->livec++; R->liveb += n;
	return (void*)p;
}
void vfail(const char* cls, const char* fmt, va_list a);
[[noreturn]] void failnow();
[[noreturn]] void ifail(const char* cls, const char* fmt, ...) { va_list a; va_start(a, fmt); vfail(cls, fmt, a); va_end(a); failnow(); }

void forget_sync(u64 p, u64 n);
void arena_free(void* pp) {
	u64 p = (u64)pp; Hdr* h = (Hdr*)(p - HDR);
	u64 i = (p - W0) >> 4;
	bool aligned = (h->cls & 0x100);
	bool ok = aligned ? (h->magic >> 28) == 0xA : h->magic == 0xA110C8ED;
	if (!ok || (h->size && !g_live[i])) ifail("heap", "invalid or double free of %#llx", (unsigned long long)p);
	u64 n = h->size, c = h->cls & 0xff; u64 raw = aligned ? p - (h->magic & 0x0fffffff) : p - HDR;
	h->magic = 0xDEADF4EE;
	memset((void*)p, 0xDD, n); memset(g_live + i, 0, (n + 15) >> 4);
	R->livec--; R->liveb -= n;
	if (g_allocpcs) g_allocpcs->erase(p);
	forget_sync(p, n); // synchronisation state living in the block
	if (!aligned) {
		g_quar->push_back(raw | 1); g_quar->push_back(c); g_quarb += clssize((int)c);
		while (g_quarb > (256u << 10)) { u64 r = g_quar->front() & ~1ull; g_quar->pop_front(); u64 cc = g_quar->front(); g_quar->pop_front(); g_quarb -= clssize((int)cc); g_free[cc]->push_back(r); }
	}
}
void arena_reset() {
	memset(g_live, 0, (g_bump >> 4) + 2);
	g_bump = 4096;
	for (auto& f : g_free) f->clear(); g_quar->clear(); g_quarb = 0;
}

//------------------------------------------------------------------------------------------------
// scheduling
void record(char k, Thread* t, u64 n, long arg) {
	R->out.push_back(Dev{ k, t->id, n, arg });
}
// find a deviation of kind k for event n of thread t in replay mode
bool rep_find(Thread* t, char k, u64 n, long& arg) {
	auto it = t->devx.find(n << 8 | (u8)k); if (it == t->devx.end()) return false;
	arg = it->second; return true;
}
bool rep_next(Thread* t, u64 n, long& arg) { // ordered 'S' deviations
	while (t->di < t->dev.size() && (t->dev[t->di].k != 'S' || t->dev[t->di].n < n)) t->di++;
	if (t->di < t->dev.size() && t->dev[t->di].n == n) { arg = t->dev[t->di].arg; t->di++; return true; }
	return false;
}
u64 rep_nextstop(Thread* t) {
	for (size_t i = t->di; i < t->dev.size(); i++) if (t->dev[i].k == 'S') return t->dev[i].n;
	return ~0ull;
}
bool chaos() { return R->events < R->k.max_chaos; }
inline u64 vnow() { return R->now + R->events * R->k.ns_per_event + R->jump; }

bool runnable(Thread& t) { return t.st == RUN && t.stall_until <= R->events; }
void wake_timers() {
	u64 n = vnow();
	for (int i = 0; i < g_nt; i++) if (T[i].st == BLOCK && T[i].timed && T[i].deadline <= n) { T[i].st = RUN; }
}
int list_runnable(int* out, int skip) {
	int n = 0; for (int i = 0; i < g_nt; i++) if (i != skip && runnable(T[i])) out[n++] = i; return n;
}
void set_stop(Thread* t) {
	if (R->replay) t->next_stop = rep_nextstop(t);
	else if (!chaos()) t->next_stop = ~0ull;
	else if (R->k.strategy == 0) t->next_stop = t->nev + R->sched.geom(R->k.p_access);
	else t->next_stop = ~0ull;
	u64 q = t->nev + (chaos() ? 20000 : 2000); // quantum (default policy, both modes)
	if (q < t->next_stop) t->next_stop = q;
	if (R->k.strategy == 1 && !R->replay && R->pcti < R->pctpts.size()) {
		u64 d = R->pctpts[R->pcti] > R->events ? R->pctpts[R->pcti] - R->events : 1;
		if (t->nev + d < t->next_stop) t->next_stop = t->nev + d;
	}
}
void switch_to(Thread* t, Thread* n) {
	if (t == n) { t->slice = 0; set_stop(t); return; }
	R->ctxsw++; R->hash = mix(R->hash, (u64)n->id * 1000003 + t->nev);
	void** eh = (void**)__cxxabiv1::__cxa_get_globals();
	t->eh[0] = eh[0]; t->eh[1] = eh[1]; eh[0] = n->eh[0]; eh[1] = n->eh[1];
	cur = n; n->slice = 0; set_stop(n);
	sim_switch(&t->sp, n->sp);
}
std::string describe_threads() {
	std::string s; char b[256];
	for (int i = 0; i < g_nt; i++) if (T[i].st != DONE) {
		snprintf(b, sizeof b, "%sT%d:%s%s", s.empty() ? "" : ", ", i, T[i].st == RUN ? "runnable" : "blocked in ", T[i].st == RUN ? "" : T[i].why); s += b;
	}
	return s;
}
// pick a thread after t blocked or ended. t->nev has been advanced by the caller
void choose_after_block(Thread* t) {
	for (;;) {
		wake_timers();
		int r[MAXT]; int n = list_runnable(r, -1);
		if (n == 0) {
			// stalled threads?
			bool any = false; for (int i = 0; i < g_nt; i++) if (T[i].st == RUN && T[i].stall_until > R->events) { T[i].stall_until = 0; any = true; }
			if (any) continue;
			// advance time
			u64 best = ~0ull; for (int i = 0; i < g_nt; i++) if (T[i].st == BLOCK && T[i].timed && T[i].deadline < best) best = T[i].deadline;
			if (best == ~0ull) { std::string d = describe_threads(); ifail("deadlock", "no thread can run: %s", d.c_str()); }
			R->now += best - vnow();
			continue;
		}
		int def = r[0]; for (int i = 0; i < n; i++) if (r[i] > t->id) { def = r[i]; break; }
		int pick = def;
		if (R->replay) { long a; if (rep_next(t, t->nev, a) && a >= 0 && a < g_nt && runnable(T[a])) pick = (int)a; }
		else if (chaos()) {
			if (R->k.strategy == 1) { for (int i = 0; i < n; i++) if (T[r[i]].prio > T[pick].prio) pick = r[i]; }
			else if (R->k.strategy != 2) pick = r[R->sched.below(n)];
		}
		if (pick != def) record('S', t, t->nev, pick);
		switch_to(t, &T[pick]);
		return;
	}
}
void block(Thread* t, const char* why, void* obj) { // t->st set to BLOCK by us; returns when made runnable and scheduled
	t->st = BLOCK; t->why = why; t->whyobj = obj;
	t->nev++; R->events++;
	choose_after_block(t);
}
void maybe_preempt(Thread* t, bool sync) {
	// called with t running, t->nev just advanced
	if (R->events > R->k.max_events) { std::string d = describe_threads(); ifail("no-progress", "step bound %llu exceeded under a fair schedule: %s", (unsigned long long)R->k.max_events, d.c_str()); }
	wake_timers();
	int r[MAXT]; int n = list_runnable(r, t->id);
	int pick = -1; bool dflt = false;
	if (n) {
		if (R->replay) { long a; if (rep_next(t, t->nev, a)) { if (a >= 0 && a < g_nt && a != t->id && runnable(T[a])) pick = (int)a; else pick = -2; } }
		else if (chaos()) {
			auto& k = R->k;
			switch (k.strategy) {
			case 0: if (sync ? R->sched.chance(k.p_sync) : t->nev >= t->next_stop) pick = r[R->sched.below(n)]; break;
			case 1: {
				if (R->pcti < R->pctpts.size() && R->events >= R->pctpts[R->pcti]) { R->pcti++; t->prio = R->lowprio--; }
				int b = -1; for (int i = 0; i < n; i++) if (b < 0 || T[r[i]].prio > T[b].prio) b = r[i];
				if (T[b].prio > t->prio) pick = b;
			} break;
			case 3: if (sync && R->sched.chance(k.p_sync)) pick = r[R->sched.below(n)]; break;
			}
		}
		if (pick >= 0) record('S', t, t->nev, pick);
		if (pick < 0 && t->slice > (chaos() ? 20000u : 2000u)) { // default policy: quantum
			int def = r[0]; for (int i = 0; i < n; i++) if (r[i] > t->id) { def = r[i]; break; }
			pick = def; dflt = true;
			if (R->k.strategy == 1 && !R->replay) t->prio = R->lowprio--; // spinning thread loses its priority
		}
	}
	(void)dflt;
	if (pick >= 0) { if (!sync) R->faults["preempt_at_access"]++; else R->faults["preempt_at_sync"]++; switch_to(t, &T[pick]); }
	else { if (t->slice > 20000) t->slice = 0; set_stop(t); }
}
void sync_point(Thread* t) {
	t->nev++; R->events++; t->slice++; R->syncops++;
	long a;
	if (R->replay) { if (rep_find(t, 'T', t->nev, a)) { t->stall_until = R->events + (u64)a; R->faults["stall"]++; record('T', t, t->nev, a); t->nev++; choose_after_block(t); return; } }
	else if (chaos() && R->k.p_stall > 0 && R->sched.chance(R->k.p_stall)) {
		int r[MAXT]; if (list_runnable(r, t->id)) {
			a = 50 + (long)R->sched.below(R->sched.chance(.3) ? 20000 : 800);
			t->stall_until = R->events + (u64)a; R->faults["stall"]++; record('T', t, t->nev, a); t->nev++; choose_after_block(t); return;
		}
	}
	maybe_preempt(t, true);
}
SyncObj& so(void* p) {
	auto& u = (*g_sync)[(u64)p]; if (!u) { u.reset(new SyncObj); u->ord = (int)(g_sync->size() + g_grave->size()); }
	return *u;
}
void shash(Thread* t, int op, SyncObj& o) { R->shash = mix(R->shash, (u64)t->id * 64 + op + ((u64)o.ord << 16)); R->hash = mix(R->hash, R->shash); }
inline void tick(Thread* t) { t->vc.c[t->id]++; }
void acquire_vc(Thread* t, const VC& v) { t->vc.join(v); }
void release_vc(Thread* t, VC& v) { v.join(t->vc); tick(t); }

void drop_sync(u64 p) { auto it = g_sync->find(p); if (it == g_sync->end()) return; g_grave->push_back(std::move(it->second)); g_sync->erase(it); }
void forget_sync(u64 p, u64 n) {
	if (g_sync->size() < 64 || n < 65536) { for (auto it = g_sync->begin(); it != g_sync->end();) if (it->first - p < n) { g_grave->push_back(std::move(it->second)); it = g_sync->erase(it); } else ++it; }
	if (!g_atom->empty()) { if (n / 4 < g_atom->size()) { for (u64 a = p; a < p + n; a++) g_atom->erase(a); } else for (auto it = g_atom->begin(); it != g_atom->end();) if (it->first - p < n) it = g_atom->erase(it); else ++it; }
}
void wake_all(std::vector<int>& w) { for (int i : w) if (T[i].st == BLOCK) { T[i].st = RUN; } w.clear(); }

void m_lock(Thread* t, SyncObj& o, void* p, const char* why) {
	while (o.owner != -1 || o.readers) {
		o.waiters.push_back(t->id); block(t, why, p);
		o.waiters.erase(std::remove(o.waiters.begin(), o.waiters.end(), t->id), o.waiters.end());
	}
	o.owner = t->id; acquire_vc(t, o.vc); acquire_vc(t, o.rvc);
}
void r_lock(Thread* t, SyncObj& o, void* p, const char* why) {
	while (o.owner != -1) { o.waiters.push_back(t->id); block(t, why, p); o.waiters.erase(std::remove(o.waiters.begin(), o.waiters.end(), t->id), o.waiters.end()); }
	o.readers++; o.rd[t->id]++; acquire_vc(t, o.vc);
}
void r_unlock(Thread* t, SyncObj& o) { if (--o.rd[t->id] == 0) o.rd.erase(t->id); o.readers--; release_vc(t, o.rvc); if (!o.readers) wake_all(o.waiters); }
void m_unlock(Thread* t, SyncObj& o) { release_vc(t, o.vc); o.owner = -1; wake_all(o.waiters); }

//------------------------------------------------------------------------------------------------
u64 g_seedmix = 0;
void fiber_main() {
	Thread* t = cur;
	t->insim = 0;
	t->ret = t->fn(t->arg);
	t->insim = 1;
	t->st = DONE; t->name.clear();
	tick(t);
	for (int j : t->joiners) if (T[j].st == BLOCK) T[j].st = RUN;
	t->joiners.clear();
	if (t->id == 0) { // scenario ended
		cur = nullptr; void* dummy; sim_switch(&dummy, g_sched_sp);
	}
	t->nev++; R->events++;
	choose_after_block(t);
	__builtin_trap();
}
extern "C" __attribute__((noreturn)) void sim_fiber_tramp() { fiber_main(); __builtin_trap(); }

Thread* spawn(void* (*fn)(void*), void* arg) {
	if (g_nt >= MAXT) ifail("too-many-threads", "more than %d threads were created", MAXT);
	Thread* t = &T[g_nt]; *t = Thread(); t->id = g_nt++;
	t->st = RUN; t->fn = fn; t->arg = arg;
	u64 top = W0 + ARENA + STACK * (t->id + 1) - 64;
	u64* sp = (u64*)(top & ~63ull);
	memset((void*)(top - (64 << 10)), R->k.fill, 64 << 10); // stale stack contents must not make runs depend on each other
	*--sp = 0; *--sp = 0; *--sp = 0; // alignment, fake return
	*--sp = (u64)&sim_fiber_tramp;   // ret target  (rsp%16==8 at entry of tramp after ret)
	for (int i = 0; i < 6; i++) *--sp = 0;
	sp--; unsigned mx = _mm_getcsr(); if (R->k.fp_default || !cur) mx = 0x1f80; unsigned short cw; asm volatile("fnstcw %0" : "=m"(cw));
	((u32*)sp)[0] = mx; ((u32*)sp)[1] = cw;
	t->sp = sp;
	if (R->replay) for (auto& d : R->in) if (d.tid == t->id) { if (d.k == 'S') t->dev.push_back(d); else t->devx.emplace(d.n << 8 | (u8)d.k, d.arg); }
	if (cur) { t->vc = cur->vc; tick(cur); }
	t->vc.c[t->id] = 1;
	t->prio = (int)R->sched.below(1000);
	return t;
}
void vfail(const char* cls, const char* fmt, va_list a) {
	Thread* t = cur; if (t) t->insim++;
	if (!R->v.set) {
		char b[2048]; vsnprintf(b, sizeof b, fmt, a);
		R->v.set = true; R->v.cls = cls; R->v.detail = b; R->v.ctx = R->ctx;
		if (t) { char n[64]; snprintf(n, sizeof n, " [in T%d, event %llu]", t->id, (unsigned long long)t->nev); R->v.detail += n; }
	}
	if (t) t->insim--;
}
std::string fname(u64 pc) {
	Dl_info i; std::string r;
	if (dladdr((void*)pc, &i) && i.dli_sname) {
		int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string s = st == 0 && d ? d : i.dli_sname; if (d) __libc_free(d);
		// strip template arguments and parameter lists
		int depth = 0; for (size_t k = 0; k < s.size(); k++) { char c = s[k];
			if (c == '<' && !(k >= 8 && s.compare(k - 8, 8, "operator") == 0)) { depth++; continue; } if (c == '>' && depth) { depth--; continue; }
			if (c == '(' && depth == 0) { if (s.compare(k, 21, "(anonymous namespace)") == 0) { k += 20; continue; } break; }
			if (!depth) r += c; }
		auto sp = r.rfind(' '); if (sp != std::string::npos && sp + 1 < r.size()) r = r.substr(sp + 1);
	}
	return r;
}
std::vector<std::string> frames_of(const std::vector<u64>& pcs) {
	std::vector<std::string> v; for (u64 p : pcs) { std::string s = fname(p - 1); if (s.empty() || s.find("sim_") == 0 || s.find("sim::") == 0) continue; if (v.empty() || v.back() != s) v.push_back(s); if (v.size() >= 24) break; }
	return v;
}
void* g_failfp = nullptr;
[[noreturn]] void failnow() {
	Thread* t = cur;
	if (!t) { fprintf(stderr, "sim: failure outside a run: %s %s\n", R ? R->v.cls.c_str() : "", R ? R->v.detail.c_str() : ""); _exit(9); }
	t->insim++;
	if (R->v.frames.empty()) { std::vector<u64> p; collect(p, g_failfp ? g_failfp : __builtin_frame_address(0)); R->v.frames = frames_of(p); }
	g_failfp = nullptr;
	g_abandon = true; cur = nullptr; void* d; sim_switch(&d, g_sched_sp);
	__builtin_trap();
}

//------------------------------------------------------------------------------------------------
// memory access checks
inline Cell* cell(u64 a) {
	if (inwin(a)) return &g_shadow[(a - W0) >> 3];
	if (a - g_gl0 < g_glsz) return &g_shadowG[(a - g_gl0) >> 3];
	return nullptr;
}
__attribute__((noinline)) void heap_bad(u64 a, unsigned sz, bool w, void* fp) {
	In in; g_failfp = fp;
	ifail("heap", "%s of %u bytes at heap address %#llx which is not inside a live allocation", w ? "write" : "read", sz, (unsigned long long)(a - W0));
}
__attribute__((noinline)) void race(u64 a, unsigned sz, bool w, u32 pc, const Slot& s, Thread* t, void* fp) {
	In in; std::string f1 = fname(pc), f2 = fname(s.pc); g_failfp = fp;
	ifail("race", "%s of %u bytes by T%d in %s races with %s by T%d in %s", w ? "write" : "read", sz, t->id, f1.c_str(), s.w ? "write" : "read", s.tid, f2.c_str());
}
inline void shadow1(Thread* t, u64 g8, u8 mask, bool w, bool at, u32 pc, u64 a, unsigned sz, void* fp) {
	Cell* c = cell(g8); if (!c) return;
	if (c->gen != g_gen) { c->gen = g_gen; c->n = 0; }
	u32 clk = t->vc.c[t->id]; int rep = -1;
	for (u32 i = 0; i < c->n; i++) {
		Slot& s = c->s[i];
		if (s.tid == t->id) {
			if (s.mask == mask && s.w == w && s.at == at) { s.clk = clk; s.pc = pc; rep = 99; continue; }
			if (rep < 0 && (s.mask & ~mask) == 0 && (w || !s.w) && (s.at || !at)) rep = (int)i;
			continue;
		}
		if ((s.mask & mask) && (w || s.w) && !(at && s.at) && s.clk > t->vc.c[s.tid]) race(a, sz, w, pc, s, t, fp);
	}
	if (rep == 99) return;
	Slot n{ clk, (u8)t->id, mask, (u8)w, (u8)at, pc, 0 };
	if (rep >= 0) c->s[rep] = n;
	else if (c->n < 7) c->s[c->n++] = n;
	else { // evict: prefer a slot ordered before us
		u32 v = 0; for (u32 i = 0; i < 7; i++) if (c->s[i].clk <= t->vc.c[c->s[i].tid]) { v = i; break; }
		c->s[v] = n;
	}
}
void access_slow(Thread* t) { In in; maybe_preempt(t, false); }
inline void on_access(void* p, unsigned sz, bool w, void* pc, void* fp) {
	Thread* t = cur; if (!t || t->oracle) return;
	t->nev++; R->events++; t->slice++;
	if (t->nev >= t->next_stop) access_slow(t);
	u64 a = (u64)p;
	if (inarena(a)) {
		u64 i = (a - W0) >> 4, o = a & 15; 
		if (o + sz <= 16 ? o + sz > g_live[i] : (g_live[i] != 16 || o + sz - 16 > g_live[i + 1])) heap_bad(a, sz, w, fp);
	}
	u64 g = a & ~7ull; unsigned o = a & 7;
	if (o + sz <= 8) shadow1(t, g, (u8)(((1u << sz) - 1) << o), w, false, (u32)(u64)pc, a, sz, fp);
	else { unsigned first = 8 - o; shadow1(t, g, (u8)(0xff << o), w, false, (u32)(u64)pc, a, sz, fp); unsigned rest = sz - first; u64 gg = g + 8;
		while (rest) { unsigned k = rest > 8 ? 8 : rest; shadow1(t, gg, (u8)((1u << k) - 1), w, false, (u32)(u64)pc, a, sz, fp); rest -= k; gg += 8; } }
}
void on_range(void* p, size_t n, bool w, void* pc, void* fp) {
	Thread* t = cur; if (!t || t->oracle || !n) return;
	u64 a = (u64)p;
	t->nev++; R->events++; t->slice++;
	if (t->nev >= t->next_stop) access_slow(t);
	if (inarena(a)) {
		u64 e = a + n; for (u64 x = a; x < e;) { u64 i = (x - W0) >> 4, o = x & 15; u64 k = std::min<u64>(16 - o, e - x); if (o + k > g_live[i]) heap_bad(x, (unsigned)k, w, fp); x += k; }
	}
	u64 e = a + n; while (a < e) { unsigned o = a & 7; u64 k = std::min<u64>(8 - o, e - a); shadow1(t, a & ~7ull, (u8)(((1u << k) - 1) << o), w, false, (u32)(u64)pc, a, (unsigned)k, fp); a += k; }
}
// atomics ------------------------------------------------------------------------------------------
enum { MO_RELAXED = 0, MO_CONSUME = 1, MO_ACQUIRE = 2, MO_RELEASE = 3, MO_ACQREL = 4, MO_SEQ = 5 };
inline bool is_acq(int m) { return m == MO_ACQUIRE || m == MO_CONSUME || m == MO_ACQREL || m == MO_SEQ; }
inline bool is_rel(int m) { return m == MO_RELEASE || m == MO_ACQREL || m == MO_SEQ; }
void at_begin(void* p, unsigned sz, bool w, void* pc, void* fp) {
	Thread* t = cur; if (!t || t->oracle) return;
	In in; sync_point(t);
	u64 a = (u64)p;
	if (inarena(a)) { u64 i = (a - W0) >> 4, o = a & 15; if (o + sz > g_live[i]) heap_bad(a, sz, w, fp); }
	unsigned o = a & 7; shadow1(t, a & ~7ull, (u8)(((1u << sz) - 1) << o), w, true, (u32)(u64)pc, a, sz, fp);
}
void at_load(void* p, int mo) {
	Thread* t = cur; if (!t || t->oracle) return; In in;
	auto it = g_atom->find((u64)p); if (it == g_atom->end()) return;
	if (is_acq(mo)) acquire_vc(t, it->second); else { t->acqf.join(it->second); t->has_acqf = true; }
	R->hash = mix(R->hash, (u64)t->id + 7);
}
void at_store(void* p, int mo, bool rmw) {
	Thread* t = cur; if (!t || t->oracle) return; In in;
	VC& v = (*g_atom)[(u64)p];
	if (!rmw) v.clear();
	if (is_rel(mo)) { v.join(t->vc); tick(t); } else { v.join(t->relf); }
}
} // namespace

//==================================================================================================
// public interface
namespace sim {
	Knobs& knobs() { return R->k; }
	uint64_t rnd() { return R->work.next(); }
	bool keep_op() { u64 i = R->ops++; if (R->dropops.count(i)) { return false; } return true; }
	void fail(const char* cls, const char* fmt, ...) {
		g_failfp = __builtin_frame_address(0);
		va_list a; va_start(a, fmt); vfail(cls, fmt, a); va_end(a); failnow();
	}
	void state(uint64_t v) { R->shash = mix(R->shash, v ^ 0x5ca1ab1eull); }
	void note(uint64_t v) { R->hash = mix(R->hash, v); }
	void note_bytes(const void* p, size_t n) { const u8* b = (const u8*)p; u64 h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; note(h); }
	void probe(const char* n, uint64_t k) { In in; R->probes[n] += k; }
	void context(const char* fmt, ...) { In in; char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); R->ctx = b; }
	int self() { return cur ? cur->id : -1; }
	uint64_t events() { return R->events; }
	uint64_t now_ns() { return vnow(); }
	void spend(uint64_t ns) { R->now += ns; }
	int live_threads() { int n = 0; for (int i = 1; i < g_nt; i++) if (T[i].st != DONE) n++; return n; }
	uint64_t live_blocks() { return R->livec; } uint64_t live_bytes() { return R->liveb; }
	uint64_t alloc_failures() { return R->nallocF; } uint64_t io_faults() { return R->nioF; }
	unsigned mxcsr() { return _mm_getcsr(); }
	Oracle::Oracle() { if (cur) { cur->oracle++; cur->insim++; } }
	Oracle::~Oracle() { if (cur) { cur->oracle--; cur->insim--; } }
	int thread_priority(int i) { return T[i].wprio; } unsigned long priority_class() { return R->prioclass; } void set_priority(int i, int p, unsigned long c) { T[i].wprio = p; R->prioclass = c; } int threads() { return g_nt; }
	void sys_faults(bool on) { R->sysF = on; } uint64_t sys_failures() { return R->nsysF; }
	void alloc_faults(bool on) { R->allocF = on; } void io_faults(bool on) { R->ioF = on; }
	void yield() { Thread* t = cur; if (!t) return; In in; sync_point(t); }
	void thread_name(const char*) {}

	struct FileData { std::string d; };
	std::map<std::string, FileData>* g_files; int g_open = 0;
	void file_put(const char* n, const void* d, size_t k) { In in; (*g_files)[n].d.assign((const char*)d, k); }
	bool file_get(const char* n, const void** d, size_t* k) { auto it = g_files->find(n); if (it == g_files->end()) return false; *d = it->second.d.data(); *k = it->second.d.size(); return true; }
	int open_files() { return g_open; }

	struct Reg { std::string prop, name; void (*fn)(); void (*tune)(Knobs&); int weight; };
	std::vector<Reg>* g_regs = nullptr;
	Registrar::Registrar(const char* p, const char* n, void (*fn)(), void (*tune)(Knobs&), int w) { if (!g_regs) g_regs = new std::vector<Reg>; g_regs->push_back(Reg{ p, n, fn, tune, w }); }
}
using sim::g_regs;

//==================================================================================================
// interposed C library functions
#define SIMT Thread* t = cur; if (!t) return 0; In in
// inside the oracle (harness bookkeeping) synchronisation is a no-op of the single real thread
extern "C" {
// a function-local static is initialised once per process, not once per run: its initialisation must leave no trace in the run
int sim_guard_acquire(u64* g) __asm__("__cxa_guard_acquire"); void sim_guard_release(u64* g) __asm__("__cxa_guard_release"); void sim_guard_abort(u64* g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(u64* g) { if (*(u8*)g) return 0; if (cur) { cur->oracle++; cur->insim++; } return 1; }
void sim_guard_release(u64* g) { *(u8*)g = 1; if (cur) { cur->oracle--; cur->insim--; } }
void sim_guard_abort(u64*) { if (cur) { cur->oracle--; cur->insim--; } }
int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
	Thread* t = cur; if (!t) { fprintf(stderr, "sim: pthread_create outside a run\n"); return EAGAIN; }
	In in; sync_point(t);
	Thread* n = spawn(fn, arg); *th = (pthread_t)(n->id + 1);
	R->probes["threads_created"]++;
	sync_point(t); return 0;
}
int pthread_join(pthread_t th, void** ret) {
	Thread* t = cur; if (!t) return ESRCH; In in; sync_point(t);
	int id = (int)th - 1; if (id < 0 || id >= g_nt) return ESRCH;
	while (T[id].st != DONE) { T[id].joiners.push_back(t->id); block(t, "join", nullptr); }
	T[id].joined = true; t->vc.join(T[id].vc); if (ret) *ret = T[id].ret; return 0;
}
int pthread_detach(pthread_t th) { SIMT; int id = (int)th - 1; if (id >= 0 && id < g_nt) T[id].detached = true; return 0; }
pthread_t pthread_self() { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)1; }
int sched_yield() { SIMT; if (t->oracle) return 0; sync_point(t);
	// a yield lets somebody else run when possible (default policy)
	int r[MAXT]; int n = list_runnable(r, t->id); if (n && t->slice > 0) { t->nev++; R->events++; wake_timers();
		int def = r[0]; for (int i = 0; i < n; i++) if (r[i] > t->id) { def = r[i]; break; }
		switch_to(t, &T[def]); }
	return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); SIMT; drop_sync((u64)m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { SIMT; drop_sync((u64)m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
	SIMT; if (t->oracle) return 0; sync_point(t); SyncObj& o = so(m); shash(t, 1, o);
	if (o.owner == t->id) { block(t, "mutex lock (already owned by itself)", m); }
	m_lock(t, o, m, "mutex lock"); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	SIMT; if (t->oracle) return 0; sync_point(t); SyncObj& o = so(m); shash(t, 2, o);
	if (o.owner != -1) return EBUSY; o.owner = t->id; acquire_vc(t, o.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	SIMT; if (t->oracle) return 0; SyncObj& o = so(m); shash(t, 3, o);
	if (o.owner != t->id) ifail("sync-misuse", "mutex unlocked by a thread that does not hold it");
	m_unlock(t, o); sync_point(t); return 0;
}
// rwlocks
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset(m, 0, sizeof *m); SIMT; drop_sync((u64)m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { SIMT; drop_sync((u64)m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { SIMT; if (t->oracle) return 0; sync_point(t); SyncObj& o = so(m); shash(t, 4, o);
	if (o.owner == t->id) return EDEADLK; m_lock(t, o, m, "rwlock write lock"); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { SIMT; if (t->oracle) return 0; sync_point(t); SyncObj& o = so(m); shash(t, 5, o);
	if (o.owner != -1 || o.readers) return EBUSY; o.owner = t->id; acquire_vc(t, o.vc); acquire_vc(t, o.rvc); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { SIMT; if (t->oracle) return 0; sync_point(t); SyncObj& o = so(m); shash(t, 6, o);
	if (o.owner == t->id) return EDEADLK;
	while (o.owner != -1) { o.waiters.push_back(t->id); block(t, "rwlock read lock", m); o.waiters.erase(std::remove(o.waiters.begin(), o.waiters.end(), t->id), o.waiters.end()); }
	o.readers++; o.rd[t->id]++; acquire_vc(t, o.vc); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { SIMT; if (t->oracle) return 0; sync_point(t); SyncObj& o = so(m); shash(t, 7, o);
	if (o.owner != -1) return EBUSY; o.readers++; o.rd[t->id]++; acquire_vc(t, o.vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { SIMT; if (t->oracle) return 0; SyncObj& o = so(m); shash(t, 8, o);
	if (o.owner == t->id) { release_vc(t, o.vc); o.owner = -1; wake_all(o.waiters); }
	else if (o.rd.count(t->id) && o.rd[t->id] > 0) { if (--o.rd[t->id] == 0) o.rd.erase(t->id); o.readers--; release_vc(t, o.rvc); if (!o.readers) wake_all(o.waiters); }
	else ifail("sync-misuse", "rwlock unlocked by a thread that does not hold it");
	sync_point(t); return 0; }
// conditions
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); SIMT; drop_sync((u64)c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { SIMT; 
	auto it = g_sync->find((u64)c); if (it != g_sync->end() && !it->second->cw.empty()) { int n = 0; for (int w : it->second->cw) if (!T[w].signaled) n++; if (n) ifail("sync-misuse", "condition variable destroyed while %d thread(s) wait on it", n); }
	drop_sync((u64)c); return 0; }
// mode: 0 exclusive, 1 shared (SRW locks only)
static int cond_wait_impl(void* c, void* m, bool timed, u64 deadline, int mode = 0) {
	Thread* t = cur; if (!t || t->oracle) return 0; In in;
	sync_point(t); SyncObj& o = so(c); SyncObj& mo = so(m); shash(t, 9, o);
	if (mode ? !mo.rd.count(t->id) : mo.owner != t->id) ifail("sync-misuse", "condition wait without holding the lock");
	u64 nw = t->nwait++; long a = 0; bool sp = false;
	if (R->replay) sp = rep_find(t, 'W', nw, a);
	else if (chaos() && R->sched.chance(R->k.p_spurious)) sp = true;
	o.cw.push_back(t->id); t->signaled = false;
	if (mode) r_unlock(t, mo); else m_unlock(t, mo);
	if (timed) { t->timed = true; t->deadline = deadline; }
	if (sp) { record('W', t, nw, 0); R->faults["spurious_wakeup"]++; t->nev++; R->events++; choose_after_block(t); }
	else if (timed && deadline <= vnow()) { t->nev++; R->events++; choose_after_block(t); }
	else block(t, timed ? "timed condition wait" : "condition wait", c);
	t->timed = false;
	{ auto& cw = so(c).cw; cw.erase(std::remove(cw.begin(), cw.end(), t->id), cw.end()); }
	bool sig = t->signaled; t->signaled = false;
	SyncObj& mo2 = so(m); if (mode) r_lock(t, mo2, m, "relock (shared) after condition wait"); else m_lock(t, mo2, m, "relock after condition wait");
	if (timed && !sig && !sp && deadline <= vnow()) { R->probes["cond_timeout"]++; return ETIMEDOUT; }
	return 0;
}
static u64 ts2ns(const struct timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_impl(c, m, false, 0); }
static const u64 REALTIME_BASE = 1600000000ull * 1000000000ull;
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { u64 n = ts2ns(ts); return cond_wait_impl(c, m, true, n > REALTIME_BASE ? n - REALTIME_BASE : 0); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
	u64 n = ts2ns(ts); if (ck == CLOCK_REALTIME) n = n > REALTIME_BASE ? n - REALTIME_BASE : 0; return cond_wait_impl(c, m, true, n); }
static int cond_signal_impl(void* c, bool all) {
	SIMT; if (t->oracle) return 0; sync_point(t); SyncObj& o = so(c); shash(t, all ? 11 : 10, o);
	std::vector<int> w; for (int i : o.cw) if (!T[i].signaled) w.push_back(i);
	if (all) { for (int i : w) { T[i].signaled = true; if (T[i].st == BLOCK) T[i].st = RUN; } }
	else if (!w.empty()) {
		size_t pick = 0; long a; u64 ns = t->nsig++;
		if (R->replay) { if (rep_find(t, 'G', ns, a) && (size_t)a < w.size()) pick = (size_t)a; }
		else if (w.size() > 1 && chaos()) { pick = R->sched.below(w.size()); }
		if (pick) record('G', t, ns, (long)pick);
		T[w[pick]].signaled = true; if (T[w[pick]].st == BLOCK) T[w[pick]].st = RUN;
	} else R->probes["signal_without_waiter"]++;
	sync_point(t); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return cond_signal_impl(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return cond_signal_impl(c, true); }
// Windows primitives (shim/windows.h)
void InitializeSRWLock(void* m) { Thread* t = cur; if (!t) return; In in; drop_sync((u64)m); }
void AcquireSRWLockExclusive(void* m) { Thread* t = cur; if (!t || t->oracle) return; In in; sync_point(t); SyncObj& o = so(m); shash(t, 4, o); if (o.owner == t->id || o.rd.count(t->id)) block(t, "SRW lock (already held by itself)", m); m_lock(t, o, m, "SRW lock, exclusive"); }
void AcquireSRWLockShared(void* m) { Thread* t = cur; if (!t || t->oracle) return; In in; sync_point(t); SyncObj& o = so(m); shash(t, 6, o); if (o.owner == t->id) block(t, "SRW lock (already held by itself)", m); r_lock(t, o, m, "SRW lock, shared"); }
unsigned char TryAcquireSRWLockExclusive(void* m) { return pthread_rwlock_trywrlock((pthread_rwlock_t*)m) == 0; }
unsigned char TryAcquireSRWLockShared(void* m) { return pthread_rwlock_tryrdlock((pthread_rwlock_t*)m) == 0; }
void ReleaseSRWLockExclusive(void* m) { Thread* t = cur; if (!t || t->oracle) return; In in; SyncObj& o = so(m); shash(t, 8, o); if (o.owner != t->id) ifail("sync-misuse", "SRW lock released (exclusive) by a thread that does not hold it so"); m_unlock(t, o); sync_point(t); }
void ReleaseSRWLockShared(void* m) { Thread* t = cur; if (!t || t->oracle) return; In in; SyncObj& o = so(m); shash(t, 8, o); if (!o.rd.count(t->id)) ifail("sync-misuse", "SRW lock released (shared) by a thread that does not hold it so"); r_unlock(t, o); sync_point(t); }
void InitializeConditionVariable(void* c) { Thread* t = cur; if (!t) return; In in; drop_sync((u64)c); }
int SleepConditionVariableSRW(void* c, void* m, unsigned long ms, unsigned long fl) { bool timed = ms != 0xFFFFFFFFul; return cond_wait_impl(c, m, timed, timed ? vnow() + (u64)ms * 1000000 : 0, (int)(fl & 1)) == 0; }
void WakeConditionVariable(void* c) { cond_signal_impl(c, false); }
void WakeAllConditionVariable(void* c) { cond_signal_impl(c, true); }
static bool sys_fault() { Thread* t = cur; u64 n = t->nsys++; long a;
	if (R->replay) { if (!rep_find(t, 'P', n, a)) return false; }
	else if (!R->sysF || R->nsysF >= R->k.max_sysfail || !R->sched.chance(R->k.p_sysfail)) return false;
	R->nsysF++; R->faults["syscall_failure"]++; record('P', t, n, 0); return true; }
unsigned long GetCurrentThread() { return ~0ul - 1; } unsigned long GetCurrentProcess() { return ~0ul; }
static Thread* thr_of(unsigned long h) { if (h == ~0ul - 1) return cur; int i = (int)h - 1; return i >= 0 && i < g_nt && T[i].st != DONE ? &T[i] : nullptr; }
int GetThreadPriority(unsigned long h) { Thread* t = cur; In in; Thread* q = thr_of(h); if (!q || sys_fault()) return 0x7fffffff; return q->wprio; }
int SetThreadPriority(unsigned long h, int p) { Thread* t = cur; In in; sync_point(t); Thread* q = thr_of(h); if (!q || sys_fault() || !(p == 15 || p == -15 || (p >= -2 && p <= 2))) return 0; q->wprio = p; return 1; }
unsigned long GetPriorityClass(unsigned long) { Thread* t = cur; In in; return sys_fault() ? 0 : R->prioclass; }
int SetPriorityClass(unsigned long, unsigned long c) { Thread* t = cur; In in; sync_point(t); if (sys_fault()) return 0; R->prioclass = c; return 1; }
int SetThreadPriorityBoost(unsigned long h, int d) { Thread* t = cur; In in; if (sys_fault()) return 0; Thread* q = thr_of(h); if (!q) return 0; q->wnoboost = d; return 1; }
void Sleep(unsigned long ms) { struct timespec ts = { (time_t)(ms / 1000), (long)(ms % 1000) * 1000000 }; nanosleep(&ts, nullptr); }
unsigned long GetLastError() { return 5; }
// clocks
static u64 clock_read() {
	Thread* t = cur; u64 n = t->nclk++; long a;
	if (!t->oracle) {
		if (R->replay) { if (rep_find(t, 'C', n, a)) { R->jump += (u64)a; R->faults["clock_jump"]++; record('C', t, n, a); } }
		else if (chaos() && R->sched.chance(R->k.p_clockjump)) { static const long js[] = { 1000000, 15000000, 1000000000l, 60000000000l, 3600000000000l }; a = js[R->sched.below(5)]; R->jump += (u64)a; R->faults["clock_jump"]++; record('C', t, n, a); }
	}
	return vnow();
}
static int (*real_clock_gettime)(clockid_t, struct timespec*) = nullptr;
int clock_gettime(clockid_t ck, struct timespec* ts) {
	if (!cur) return real_clock_gettime ? real_clock_gettime(ck, ts) : -1;
	In in; u64 n = clock_read(); if (ck == CLOCK_REALTIME) n += REALTIME_BASE; ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0;
}
int gettimeofday(struct timeval* tv, void*) {
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
static int sleep_until(u64 d) { Thread* t = cur; In in; sync_point(t); if (d > vnow()) { t->timed = true; t->deadline = d; block(t, "sleep", nullptr); t->timed = false; } return 0; }
int nanosleep(const struct timespec* ts, struct timespec*) { if (!cur) return 0; return sleep_until(vnow() + ts2ns(ts)); }
int clock_nanosleep(clockid_t ck, int fl, const struct timespec* ts, struct timespec*) { if (!cur) return 0; u64 n = ts2ns(ts); if (fl & TIMER_ABSTIME) { if (ck == CLOCK_REALTIME) n = n > REALTIME_BASE ? n - REALTIME_BASE : 0; } else n += vnow(); return sleep_until(n); }
int usleep(useconds_t u) { if (!cur) return 0; return sleep_until(vnow() + (u64)u * 1000); }
int get_nprocs() { return R ? R->k.ncpu : 4; }
int get_nprocs_conf() { return get_nprocs(); }
static long (*real_sysconf)(int);
long sysconf(int n) { if (R && cur && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return R->k.ncpu; if (!real_sysconf) real_sysconf = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); return real_sysconf(n); }
void abort() { if (cur) { In in; g_failfp = __builtin_frame_address(0);
	std::string ex; if (std::type_info* ti = abi::__cxa_current_exception_type()) { int st; char* d = abi::__cxa_demangle(ti->name(), 0, 0, &st); ex = std::string(" (exception ") + (d ? d : ti->name()) + ")"; if (d) __libc_free(d); }
	ifail("crash:abort", "the program was terminated%s", ex.c_str()); } _exit(134); }

// memory -------------------------------------------------------------------------------------------
static void* do_alloc(size_t n, size_t al, void* fp) {
	Thread* t = cur;
	if (!t || t->insim || t->oracle) return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
	In in; u64 i = t->nalloc++; long a; bool f = false; const bool thr = t->throwing; t->throwing = false; (void)thr;
	if (R->replay) f = rep_find(t, 'A', i, a);
	else if (R->allocF && (R->k.fail_malloc || thr || al > 16 || t->newing) && (!thr || (R->k.fail_throwing && n >= R->k.throw_min)) && R->nallocF < R->k.max_allocfail && R->sched.chance(R->k.p_allocfail)) f = true;
	if (f) { R->nallocF++; R->faults["alloc_failure"]++; R->shash = mix(R->shash, 0xA000 + (u64)i * 65536); record('A', t, i, 0); R->faultpcs.clear(); collect(R->faultpcs, fp); errno = ENOMEM; return nullptr; }
	void* p = arena_alloc(n, al);
	if (!p) { R->faults["arena_full"]++; errno = ENOMEM; return nullptr; }
	if (g_trackallocs) { auto& v = (*g_allocpcs)[(u64)p]; v.clear(); collect(v, fp); }
	return p;
}
void* malloc(size_t n) { return do_alloc(n, 16, __builtin_frame_address(0)); }
void free(void* p) { if (!p) return; if (inarena((u64)p)) { if (!R) return; In in; arena_free(p); return; } __libc_free(p); }
void* calloc(size_t a, size_t b) { if (!cur || cur->insim || cur->oracle) return __libc_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = do_alloc(n, 16, __builtin_frame_address(0)); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
	if (!p) return malloc(n);
	if (!inarena((u64)p)) { if (!cur || cur->insim || cur->oracle) return __libc_realloc(p, n); return __libc_realloc(p, n); }
	u64 old = ((Hdr*)((u64)p - HDR))->size; void* q = do_alloc(n, 16, __builtin_frame_address(0)); if (!q) return nullptr; memcpy(q, p, old < n ? old : n); free(p); return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al, __builtin_frame_address(0)); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, __builtin_frame_address(0)); }
int posix_memalign(void** p, size_t al, size_t n) { *p = do_alloc(n, al, __builtin_frame_address(0)); return *p ? 0 : ENOMEM; }

// files: glibc streams over an in-memory disk, with faults in the read/write/seek/close callbacks
struct Cookie { sim::FileData* f; u64 pos; bool w, app; };
static int io_fault(int op) { // op: 1 open 2 read 3 write 4 seek 5 close; returns fault kind or 0
	Thread* t = cur; u64 i = t->nio++; long a = 0;
	if (R->replay) { if (!rep_find(t, 'I', i, a)) return 0; }
	else {
		if (!R->ioF || R->nioF >= R->k.max_iofault || !R->sched.chance(R->k.p_io)) return 0;
		switch (op) { case 1: a = sim::IO_OPENFAIL; break; case 2: a = R->sched.chance(.4) ? sim::IO_EOF : R->sched.chance(.6) ? sim::IO_EIO : sim::IO_SHORT; break;
		case 3: case 5: a = sim::IO_WRITEERR; break; default: a = sim::IO_SEEKERR; }
	}
	static const char* nm[] = { "", "io_open_failure", "io_premature_eof", "io_read_error", "io_short_read", "io_write_error", "io_seek_error" };
	R->nioF++; R->faults[nm[a]]++; R->shash = mix(R->shash, 0x10000 + (u64)a + (u64)i * 65536); record('I', t, i, a); return (int)a;
}
static ssize_t ck_read(void* c, char* b, size_t n) {
	Cookie* k = (Cookie*)c; In in; int f = cur ? io_fault(2) : 0;
	if (f == sim::IO_EIO) { errno = EIO; return -1; } if (f == sim::IO_EOF) { k->f = nullptr; return 0; }
	if (!k->f) return 0;
	u64 l = k->f->d.size(), left = k->pos < l ? l - k->pos : 0; if (n > left) n = left;
	if (f == sim::IO_SHORT && n > 1) n = 1 + n / 3;
	memcpy(b, k->f->d.data() + k->pos, n); k->pos += n; return (ssize_t)n;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
	Cookie* k = (Cookie*)c; In in; int f = cur ? io_fault(3) : 0; if (f) { errno = ENOSPC; return 0; }
	auto& d = k->f->d; if (k->app) k->pos = d.size(); if (d.size() < k->pos + n) d.resize(k->pos + n); memcpy(&d[k->pos], b, n); k->pos += n; return (ssize_t)n;
}
static int ck_seek(void* c, off64_t* o, int wh) {
	Cookie* k = (Cookie*)c; In in; int f = cur ? io_fault(4) : 0; if (f) { errno = EIO; return -1; }
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)k->pos : (int64_t)(k->f ? k->f->d.size() : 0); b += *o; if (b < 0) { errno = EINVAL; return -1; } k->pos = (u64)b; *o = b; return 0;
}
static int ck_close(void* c) { In in; sim::g_open--; delete (Cookie*)c; return 0; }
static FILE* (*real_fopen)(const char*, const char*);
FILE* fopen(const char* n, const char* m) {
	Thread* t = cur; if (!t || t->oracle) return real_fopen(n, m);
	In in; if (io_fault(1)) { errno = ENOENT; return nullptr; }
	auto it = sim::g_files->find(n); bool w = strchr(m, 'w'), ap = strchr(m, 'a');
	if (it == sim::g_files->end()) { if (!w && !ap) { errno = ENOENT; return nullptr; } (*sim::g_files)[n]; it = sim::g_files->find(n); }
	if (w) it->second.d.clear();
	Cookie* c = new Cookie{ &it->second, 0, w || ap, ap };
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	FILE* f = fopencookie(c, m, io); if (!f) { delete c; return nullptr; } sim::g_open++;
	return f;
}
static size_t (*real_fread)(void*, size_t, size_t, FILE*);
size_t fread(void* p, size_t s, size_t n, FILE* f) { // the destination is checked like any other write of the program
	if (!real_fread) real_fread = (size_t (*)(void*, size_t, size_t, FILE*))dlsym(RTLD_NEXT, "fread");
	if (cur && !cur->oracle && !cur->insim) { size_t b; if (__builtin_mul_overflow(s, n, &b)) b = ~(size_t)0 >> 1; on_range(p, b, true, __builtin_return_address(0), __builtin_frame_address(0)); }
	return real_fread(p, s, n, f);
}
FILE* fopen64(const char* n, const char* m) { return fopen(n, m); }
int remove(const char* n) { Thread* t = cur; if (!t || t->oracle) return unlink(n); In in; if (!sim::g_files->erase(n)) { errno = ENOENT; return -1; } return 0; }
static int (*real_fclose)(FILE*);

//==================================================================================================
// ThreadSanitizer callbacks
#define PC __builtin_return_address(0)
#define FP __builtin_frame_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define ACC(n) \
void __tsan_read##n(void* a) { on_access(a, n, false, PC, FP); } void __tsan_write##n(void* a) { on_access(a, n, true, PC, FP); } \
void __tsan_unaligned_read##n(void* a) { on_access(a, n, false, PC, FP); } void __tsan_unaligned_write##n(void* a) { on_access(a, n, true, PC, FP); } \
void __tsan_volatile_read##n(void* a) { on_access(a, n, false, PC, FP); } void __tsan_volatile_write##n(void* a) { on_access(a, n, true, PC, FP); } \
void __tsan_read_write##n(void* a) { on_access(a, n, true, PC, FP); } void __tsan_unaligned_read_write##n(void* a) { on_access(a, n, true, PC, FP); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { on_range(a, n, false, PC, FP); }
void __tsan_write_range(void* a, size_t n) { on_range(a, n, true, PC, FP); }
void __tsan_vptr_update(void** a, void*) { on_access(a, 8, true, PC, FP); }
void __tsan_vptr_read(void** a) { on_access(a, 8, false, PC, FP); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { on_range((void*)s, n, false, PC, FP); on_range(d, n, true, PC, FP); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { on_range((void*)s, n, false, PC, FP); on_range(d, n, true, PC, FP); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { on_range(d, n, true, PC, FP); return memset(d, v, n); }

#define AT(bits, ty) \
ty __tsan_atomic##bits##_load(const volatile ty* a, int mo) { at_begin((void*)a, sizeof(ty), false, PC, FP); at_load((void*)a, mo); return *a; } \
void __tsan_atomic##bits##_store(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_store((void*)a, mo, false); *a = v; } \
ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_load((void*)a, mo); at_store((void*)a, mo, true); ty o = *a; *a = v; return o; } \
ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_load((void*)a, mo); at_store((void*)a, mo, true); ty o = *a; *a = (ty)(o + v); return o; } \
ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_load((void*)a, mo); at_store((void*)a, mo, true); ty o = *a; *a = (ty)(o - v); return o; } \
ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_load((void*)a, mo); at_store((void*)a, mo, true); ty o = *a; *a = (ty)(o & v); return o; } \
ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_load((void*)a, mo); at_store((void*)a, mo, true); ty o = *a; *a = (ty)(o | v); return o; } \
ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_load((void*)a, mo); at_store((void*)a, mo, true); ty o = *a; *a = (ty)(o ^ v); return o; } \
ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int mo) { at_begin((void*)a, sizeof(ty), true, PC, FP); at_load((void*)a, mo); at_store((void*)a, mo, true); ty o = *a; *a = (ty)~(o & v); return o; } \
static inline bool cas##bits(volatile ty* a, ty* c, ty v, int mo, int fmo, void* pc, void* fp) { at_begin((void*)a, sizeof(ty), true, pc, fp); \
	if (*a == *c) { at_load((void*)a, mo); at_store((void*)a, mo, true); *a = v; return true; } at_load((void*)a, fmo); *c = *a; return false; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, PC, FP); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, PC, FP); } \
ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) { cas##bits(a, &c, v, mo, fmo, PC, FP); return c; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {
	Thread* t = cur; if (!t || t->oracle) return; In in; sync_point(t);
	if (is_acq(mo) && t->has_acqf) { t->vc.join(t->acqf); }
	if (is_rel(mo)) { t->relf = t->vc; tick(t); }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

//==================================================================================================
// signals
static char g_emerg[256 << 10] __attribute__((aligned(64)));
static volatile int g_signo; static u64 g_sigaddr, g_sigfp, g_sigpc;
extern "C" void sim_crash_tramp() {
	Thread* t = cur; if (!t) _exit(9); t->insim++;
	_mm_setcsr(0x1f80);
	R->v.set = true; if (R->v.cls.empty()) {
		R->v.cls = g_signo == SIGVTALRM ? "hang" : g_signo == SIGFPE ? "crash:SIGFPE" : g_signo == SIGILL ? "crash:SIGILL" : "crash:SIGSEGV";
		char b[256]; bool so = false; u64 a = g_sigaddr; if (inwin(a) && a >= W0 + ARENA && (a - W0 - ARENA) % STACK < 65536) so = true;
		snprintf(b, sizeof b, "signal %d, address %#llx%s [in T%d, event %llu]", g_signo, (unsigned long long)(g_signo == SIGSEGV ? g_sigaddr : 0), so ? " (stack overflow)" : "", t->id, (unsigned long long)t->nev);
		R->v.detail = b; R->v.ctx = R->ctx; std::vector<u64> p; p.push_back(g_sigpc + 1); if (inwin(g_sigfp)) collect(p, (void*)g_sigfp); R->v.frames = frames_of(p);
	}
	failnow();
}
static void on_signal(int s, siginfo_t* si, void* ucv) {
	ucontext_t* uc = (ucontext_t*)ucv;
	if (!cur) { const char m[] = "sim: crash outside a run\n"; (void)!write(2, m, sizeof m - 1); _exit(9); }
	g_signo = s; g_sigaddr = (u64)si->si_addr; g_sigfp = (u64)uc->uc_mcontext.gregs[REG_RBP]; g_sigpc = (u64)uc->uc_mcontext.gregs[REG_RIP];
	uc->uc_mcontext.gregs[REG_RIP] = (greg_t)&sim_crash_tramp; uc->uc_mcontext.gregs[REG_RSP] = (greg_t)((u64)(g_emerg + sizeof g_emerg - 64) & ~63ull) - 8;
}
static void install_signals() {
	static char alt[64 << 10]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM }) sigaction(s, &sa, nullptr);
}

//==================================================================================================
static void* scen_main(void* p) { ((void (*)())p)(); return nullptr; }

static void swarm(Run& r) {
	Rng g(r.seed * 0x2545F4914F6CDD1Dull + 0x1234567); auto& k = r.k;
	auto pick = [&](std::initializer_list<double> l) { return *(l.begin() + g.below(l.size())); };
	u64 x = g.below(100); k.strategy = x < 45 ? 0 : x < 70 ? 1 : x < 75 ? 2 : 3;
	k.p_access = pick({ 0, 1e-4, 1e-3, 1e-3, 1e-2, 5e-2 }); k.p_sync = pick({ .02, .1, .3, .5, .9 });
	k.p_spurious = pick({ 0, 0, .05, .3 }); k.p_stall = pick({ 0, 0, 0, .01, .05 }); k.p_clockjump = pick({ 0, 0, 0, .05, .3 });
	k.p_allocfail = 0; k.p_io = 0; k.p_sysfail = 0; k.max_sysfail = 1; k.max_allocfail = 1; k.max_iofault = 1; k.fail_throwing = false; k.throw_min = 0; k.fail_malloc = true;
	k.ns_per_event = (u64)pick({ 1, 20, 100, 2000, 100000 });
	k.ncpu = 2 + (int)g.below(5); k.fp_default = g.chance(.7);
	static const u8 fills[] = { 0x00, 0xCD, 0xFF, 0x7F, 0x3E }; k.fill = fills[g.below(5)];
	k.max_chaos = 400000; k.max_events = 40000000;
	r.sched = Rng(r.seed * 0x9E3779B97F4A7C15ull + 77); r.work = Rng(r.seed * 0xD1B54A32D192ED03ull + 99);
	int d = 1 + (int)g.below(6); double lg = 1.5 + g.unit() * 3.5; u64 L = (u64)std::pow(10.0, lg);
	for (int i = 0; i < d; i++) r.pctpts.push_back(1 + g.below(L)); std::sort(r.pctpts.begin(), r.pctpts.end());
}

static const sim::Reg* pick_scen(const std::string& prop, u64 seed, const std::string& only) {
	std::vector<const sim::Reg*> v; int tot = 0; for (auto& r : *g_regs) if (r.prop == prop && (only.empty() || r.name == only)) { v.push_back(&r); tot += r.weight; }
	if (v.empty()) return nullptr;
	Rng g(seed ^ 0xABCDEF12345ull); int x = (int)g.below((u64)tot); for (auto* r : v) { if (x < r->weight) return r; x -= r->weight; } return v[0];
}
static void exec_run(Run& r, const sim::Reg* s) {
	R = &r; r.prop = s->prop; r.scen = s->name; swarm(r); if (s->tune) s->tune(r.k);
	for (auto& d : r.in) if (d.k == 'O') r.dropops.insert(d.n);
	g_gen++; arena_reset(); g_nt = 0; g_sync->clear(); g_grave->clear(); g_atom->clear(); g_abandon = false; sim::g_files->clear(); sim::g_open = 0; if (g_allocpcs) g_allocpcs->clear();
	__libc_single_threaded = 0;
	struct itimerval it{}; it.it_value.tv_sec = 25; setitimer(ITIMER_VIRTUAL, &it, nullptr);
	void** eh = (void**)__cxxabiv1::__cxa_get_globals(); void* e0 = eh[0]; void* e1 = eh[1]; eh[0] = nullptr; eh[1] = nullptr;
	Thread* t = spawn(scen_main, (void*)s->fn); cur = t; set_stop(t);
	sim_switch(&g_sched_sp, t->sp);
	cur = nullptr; eh[0] = e0; eh[1] = e1;
	struct itimerval z{}; setitimer(ITIMER_VIRTUAL, &z, nullptr);
	if (!r.v.set) {
		auto set = [&](const char* c, const std::string& d) { if (!r.v.set) { r.v.set = true; r.v.cls = c; r.v.detail = d; r.v.ctx = r.ctx; } };
		int lt = 0; for (int i = 1; i < g_nt; i++) if (T[i].st != DONE) lt++;
		if (lt) set("thread-leak", std::to_string(lt) + " thread(s) still running after the scenario released everything: " + describe_threads());
		if (sim::g_open) set("file-leak", std::to_string(sim::g_open) + " file(s) left open");
		if (r.livec && !r.noleakcheck) { set("leak", std::to_string(r.livec) + " heap block(s), " + std::to_string(r.liveb) + " bytes, still allocated at the end");
			if (g_allocpcs && !g_allocpcs->empty()) { std::vector<u64> keys; for (auto& kv : *g_allocpcs) keys.push_back(kv.first); r.v.frames = frames_of((*g_allocpcs)[*std::min_element(keys.begin(), keys.end())]); } }
	}
	if (r.v.set && !r.faultpcs.empty()) r.v.faultframes = frames_of(r.faultpcs);
	r.hash = mix(r.hash, r.events); r.hash = mix(r.hash, r.shash); r.hash = mix(r.hash, r.now + r.jump);
	R = nullptr;
}
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static std::string jarr(const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + jstr(v[i]); return o + "]"; }
static std::string viol_json(const Run& r) {
	return "{\"class\":" + jstr(r.v.cls) + ",\"detail\":" + jstr(r.v.detail) + ",\"context\":" + jstr(r.v.ctx) + ",\"frames\":" + jarr(r.v.frames) + ",\"fault_frames\":" + jarr(r.v.faultframes) + ",\"scenario\":" + jstr(r.scen) + ",\"seed\":" + std::to_string(r.seed) + ",\"hash\":\"" + std::to_string(r.hash) + "\"}";
}
static void write_trace(const char* fn, const Run& r) {
	FILE* f = real_fopen(fn, "w"); if (!f) return;
	fprintf(f, "nntl-dst-replay 1\nproperty %s\nscenario %s\nseed %llu\nclass %s\n", r.prop.c_str(), r.scen.c_str(), (unsigned long long)r.seed, r.v.cls.c_str());
	for (u64 o : r.dropops) fprintf(f, "O 0 %llu 0\n", (unsigned long long)o);
	for (auto& d : r.out) fprintf(f, "%c %d %llu %ld\n", d.k, d.tid, (unsigned long long)d.n, d.arg);
	fclose(f);
}
struct Known { std::string cls, frame; };
static bool known(const std::vector<Known>& ks, const Run& r) {
	for (auto& k : ks) { if (k.cls != "*" && k.cls != r.v.cls) continue;
		bool hit = r.v.ctx.find(k.frame) != std::string::npos || r.v.detail.find(k.frame) != std::string::npos; for (auto& f : r.v.frames) if (f.find(k.frame) != std::string::npos) hit = true; for (auto& f : r.v.faultframes) if (f.find(k.frame) != std::string::npos) hit = true;
		if (hit) return true; }
	return false;
}
static double wall() { struct timespec ts; real_clock_gettime(CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + ts.tv_nsec * 1e-9; }

int main(int argc, char** argv) {
	real_fopen = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); real_fclose = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
	real_clock_gettime = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
	static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
	if (mmap((void*)W0, WSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)W0) { perror("mmap window"); return 9; }
	for (int i = 0; i < MAXT; i++) mprotect((void*)(W0 + ARENA + STACK * i), 4096, PROT_NONE);
	auto mm = [](u64 n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(9); } return p; };
	g_live = (u8*)mm((ARENA >> 4) + 4096); g_shadow = (Cell*)mm((WSIZE >> 3) * sizeof(Cell));
	g_gl0 = (u64)&__data_start & ~7ull; g_glsz = (u64)&_end - g_gl0; g_shadowG = (Cell*)mm(((g_glsz >> 3) + 2) * sizeof(Cell));
	for (auto& f : g_free) f = new std::vector<u64>; g_quar = new std::deque<u64>; g_sync = new std::unordered_map<u64, std::unique_ptr<SyncObj>>; g_atom = new std::unordered_map<u64, VC>; g_grave = new std::vector<std::unique_ptr<SyncObj>>;
	sim::g_files = new std::map<std::string, sim::FileData>; g_bump = ARENA - 4096;
	install_signals(); try { throw std::bad_alloc(); } catch (const std::bad_alloc&) {} // what the runtime sets up at the first exception must not belong to the first run
	if (argc < 2) return 9;
	std::string cmd = argv[1];
	if (cmd == "list") { for (auto& r : *g_regs) printf("%s %s %d\n", r.prop.c_str(), r.name.c_str(), r.weight); return 0; }
	if (cmd == "run") { // run PROP seed0 count secs outprefix [known-file] [scenario]
		std::string prop = argv[2]; u64 s0 = strtoull(argv[3], 0, 10), cnt = strtoull(argv[4], 0, 10); double secs = atof(argv[5]); std::string out = argv[6];
		std::vector<Known> ks; if (argc > 7 && *argv[7]) { FILE* f = real_fopen(argv[7], "r"); char a[256], b[512]; if (f) { while (fscanf(f, "%255s %511s", a, b) == 2) ks.push_back(Known{ a, b }); fclose(f); } }
		std::string only = argc > 8 ? argv[8] : "";
		double t0 = wall(); u64 runs = 0, ev = 0, sw = 0, so_ = 0, simns = 0, dbl = 0, nondet = 0, kn = 0; std::map<std::string, u64> faults, probes, scen; std::unordered_set<u64> inter; std::map<std::string, u64> knc;
		std::string viol; std::vector<std::string> samples; u64 chainhash = 0;
		for (u64 i = 0; i < cnt; i++) {
			if (i && wall() - t0 > secs) break;
			u64 seed = s0 + i; const sim::Reg* s = pick_scen(prop, seed, only); if (!s) { fprintf(stderr, "no scenario\n"); return 9; }
			Run r; r.seed = seed; exec_run(r, s); runs++; ev += r.events; sw += r.ctxsw; so_ += r.syncops; simns += r.events * r.k.ns_per_event + r.now + r.jump;
			for (auto& f : r.faults) faults[f.first] += f.second; for (auto& f : r.probes) probes[f.first] += f.second; scen[r.scen]++; inter.insert(r.shash * 31 + r.ctxsw); chainhash = mix(chainhash, r.hash);
			if (samples.size() < 3) { char b[300]; snprintf(b, sizeof b, "seed %llu scenario %s strategy %d ncpu %d events %llu switches %llu deviations %zu: %s", (unsigned long long)seed, r.scen.c_str(), r.k.strategy, r.k.ncpu, (unsigned long long)r.events, (unsigned long long)r.ctxsw, r.out.size(), r.v.set ? r.v.cls.c_str() : "ok"); samples.push_back(b); }
			if (seed % 64 == 0 || r.v.set) { Run r2; r2.seed = seed; exec_run(r2, s); dbl++; if (r2.hash != r.hash) { nondet++; fprintf(stderr, "nondeterminism: seed %llu scenario %s\n", (unsigned long long)seed, r.scen.c_str()); } }
			if (r.v.set) {
				if (known(ks, r)) { kn++; knc[r.v.cls + " " + (r.v.ctx.empty() ? r.scen : r.v.ctx)]++; continue; }
				write_trace((out + ".trace").c_str(), r); viol = viol_json(r); break;
			}
		}
		struct rusage ru; getrusage(RUSAGE_SELF, &ru);
		FILE* f = real_fopen((out + ".json").c_str(), "w"); if (!f) return 9;
		auto m = [&](std::map<std::string, u64>& x) { std::string o = "{"; for (auto& k : x) o += (o.size() > 1 ? "," : "") + jstr(k.first) + ":" + std::to_string(k.second); return o + "}"; };
		std::string ih = "["; size_t c = 0; for (u64 h : inter) { if (c++ >= 200000) break; ih += (c > 1 ? "," : "") + std::to_string(h % 1000000007ull * 1000003 % 4294967291ull); } ih += "]";
		fprintf(f, "{\"runs\":%llu,\"events\":%llu,\"switches\":%llu,\"syncops\":%llu,\"sim_ns\":%llu,\"double_runs\":%llu,\"nondet\":%llu,\"known\":%llu,\"known_cases\":%s,\"distinct\":%zu,\"faults\":%s,\"probes\":%s,\"scenarios\":%s,\"samples\":%s,\"wall\":%.3f,\"maxrss_kb\":%ld,\"chain\":\"%llu\",\"inter\":%s,\"violation\":%s}\n",
			(unsigned long long)runs, (unsigned long long)ev, (unsigned long long)sw, (unsigned long long)so_, (unsigned long long)simns, (unsigned long long)dbl, (unsigned long long)nondet, (unsigned long long)kn, m(knc).c_str(), inter.size(), m(faults).c_str(), m(probes).c_str(), m(scen).c_str(), jarr(samples).c_str(), wall() - t0, ru.ru_maxrss, (unsigned long long)chainhash, ih.c_str(), viol.empty() ? "null" : viol.c_str());
		fclose(f); return viol.empty() ? 0 : 1;
	}
	if (cmd == "replay") { // replay FILE [trackallocs]
		if (argc > 3) { g_trackallocs = true; g_allocpcs = new std::unordered_map<u64, std::vector<u64>>; }
		FILE* f = real_fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 9; }
		Run r; r.replay = true; char line[1024]; std::string prop, scen;
		while (fgets(line, sizeof line, f)) { char a[256]; unsigned long long n; long x; int t; char k;
			if (sscanf(line, "property %255s", a) == 1) prop = a; else if (sscanf(line, "scenario %255s", a) == 1) scen = a; else if (sscanf(line, "seed %llu", &n) == 1) r.seed = n;
			else if (line[1] == ' ' && sscanf(line, "%c %d %llu %ld", &k, &t, &n, &x) == 4) r.in.push_back(Dev{ k, t, n, x }); }
		fclose(f);
		const sim::Reg* s = nullptr; for (auto& q : *g_regs) if (q.prop == prop && q.name == scen) s = &q; if (!s) { fprintf(stderr, "no scenario %s %s\n", prop.c_str(), scen.c_str()); return 9; }
		if (argc > 4 && !strcmp(argv[4], "gen")) { r.replay = false; std::vector<Dev> keep; for (auto& d : r.in) if (d.k == 'O') keep.push_back(d); r.in = keep; }
		exec_run(r, s);
		if (argc > 5) write_trace(argv[5], r);
		printf("{\"violation\":%s,\"hash\":\"%llu\",\"events\":%llu,\"ops\":%llu,\"applied\":%zu}\n", r.v.set ? viol_json(r).c_str() : "null", (unsigned long long)r.hash, (unsigned long long)r.events, (unsigned long long)r.ops, r.out.size());
		fflush(stdout); return r.v.set ? 1 : 0;
	}
	return 9;
}

// libstdc++ declares this inline in ways the MSVC-compatible mode of the harness does not see
extern "C" bool sim_type_eq(const void* a, const void* b) __asm__("_ZNKSt9type_infoeqERKS_");
extern "C" bool sim_type_eq(const void* a, const void* b) { const char* x = ((const char* const*)a)[1]; const char* y = ((const char* const*)b)[1]; return x == y || (x[0] != '*' && !strcmp(x, y)); }

// plain operator new reports failure by an exception, which the library documents as fatal: told apart from nothrow new and malloc
void* operator new(size_t n) { if (cur) cur->throwing = true; void* p = malloc(n ? n : 1); if (cur) cur->throwing = false; if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (cur) cur->newing = true; void* p = malloc(n ? n : 1); if (cur) cur->newing = false; return p; }
void* operator new[](size_t n, const std::nothrow_t& z) noexcept { return operator new(n, z); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
