// Lock and wait wrappers: P20
#include <map>
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
#include <nntl/utils/data_buffer.h>
namespace sim { std::ostream nullout(nullptr); }
using namespace nntl;
typedef threads::win_sync_primitives Win; typedef threads::std_sync_primitives Std; typedef threads::sync_primitives Def;

// ---- mutual exclusion -------------------------------------------------------------------------------
struct Shared { uint64_t a, b; uint32_t n; uint64_t* heap; };
template<class F> static void crew(int n, F&& f) { std::vector<std::thread> th; for (int i = 0; i < n; ++i) th.emplace_back([&f, i] { f(i); }); for (auto& t : th) t.join(); }
static int* Inside; // number of threads in the exclusive section / readers, oracle side
struct Enter { bool ex; Enter(bool x) : ex(x) { sim::Oracle g; if (ex ? Inside[0] || Inside[1] : Inside[0]) sim::fail("exclusion", "a thread entered %s while %d writer(s) and %d reader(s) were inside", ex ? "exclusively" : "as a reader", Inside[0], Inside[1]); Inside[ex ? 0 : 1]++; } ~Enter() { sim::Oracle g; Inside[ex ? 0 : 1]--; } };
static void wr(Shared* s) { Enter e(true); if (s->a != s->b) sim::fail("exclusion", "a writer sees a half-made update"); uint64_t v = s->a + 1; s->a = v; *s->heap += 1; s->b = v; s->n++; }
static void rd(Shared* s) { Enter e(false); uint64_t x = s->a, h = *s->heap, y = s->b; if (x != y || x != h) sim::fail("exclusion", "a reader sees a half-made update (%llu/%llu/%llu)", (unsigned long long)x, (unsigned long long)y, (unsigned long long)h); }
static Shared* mk() { Shared* s = new Shared; s->a = s->b = 0; s->n = 0; s->heap = (uint64_t*)calloc(1, 8); sim::Oracle g; Inside = new int[2](); return s; }
static void fin(Shared* s, uint64_t want) { if (s->a != want || s->b != want || *s->heap != want) sim::fail("exclusion", "%llu updates are visible, %llu were made", (unsigned long long)s->a, (unsigned long long)want); free(s->heap); delete s; sim::probe("sections", want); sim::Oracle g; delete[] Inside; }
static void s_spin() {
	const int n = (int)sim::rng(2, 4), k = (int)sim::rng(1, 6); const int how = (int)sim::rnd(5); sim::context("spin lock: %d threads, %d sections, way %d", n, k, how);
	Shared* s = mk(); threads::spin_lock* l = new threads::spin_lock;
	crew(n, [=](int id) { for (int i = 0; i < k; ++i) { int h = how < 4 ? how : (id + i) & 3;
		if (h == 0) { l->lock(); wr(s); l->unlock(); } else if (h == 1) { l->lock_yield(); wr(s); l->unlock(); } else if (h == 2) { threads::yieldable_lock<threads::spin_lock> g(*l); wr(s); } else { std::lock_guard<threads::spin_lock> g(*l); wr(s); } } });
	{ l->lock(); l->unlock(); } fin(s, (uint64_t)n * k); delete l;
}
template<class S> static void s_mutex() {
	const int n = (int)sim::rng(2, 4), k = (int)sim::rng(1, 6), how = (int)sim::rnd(4); sim::context("mutex: %d threads, %d sections, way %d", n, k, how);
	Shared* s = mk(); auto* l = new typename S::mutex_t;
	crew(n, [=](int id) { for (int i = 0; i < k; ++i) { int h = how < 3 ? how : (id + i) % 3; if (h == 0) { l->lock(); wr(s); l->unlock(); } else if (h == 1) { threads::yieldable_lock<typename S::mutex_t> g(*l); wr(s); } else { std::unique_lock<typename S::mutex_t> g(*l); wr(s); } } });
	fin(s, (uint64_t)n * k); delete l;
}
template<class S> static void s_shared() {
	const int n = (int)sim::rng(2, 5), k = (int)sim::rng(1, 6); const uint64_t mix = sim::rnd(); sim::context("shared lock: %d threads, %d sections", n, k);
	Shared* s = mk(); auto* l = new typename S::shared_mutex_t; uint64_t want = 0; for (int id = 0; id < n; ++id) for (int i = 0; i < k; ++i) want += (mix >> ((id * 7 + i) & 63)) & 1;
	crew(n, [=](int id) { for (int i = 0; i < k; ++i) if ((mix >> ((id * 7 + i) & 63)) & 1) { if (i & 1) { std::unique_lock<typename S::shared_mutex_t> g(*l); wr(s); } else { l->lock(); wr(s); l->unlock(); } }
		else { if (i & 1) { std::shared_lock<typename S::shared_mutex_t> g(*l); rd(s); } else { S::lockShared(*l); rd(s); S::unlockShared(*l); } } });
	fin(s, want); delete l;
}
template<class S> static void s_shared2() { // lockShared()/unlockShared() on a lock without a shared mode
	const int n = (int)sim::rng(2, 4), k = (int)sim::rng(1, 5); Shared* s = mk(); auto* l = new threads::spin_lock; sim::context("shared interface of an exclusive lock: %d threads, %d sections", n, k);
	crew(n, [=](int) { for (int i = 0; i < k; ++i) { S::lockShared(*l); wr(s); S::unlockShared(*l); } }); fin(s, (uint64_t)n * k); delete l;
}
// readers may be inside together: two readers that wait for each other must both get in
template<class S> static void s_coread() {
	auto* l = new typename S::shared_mutex_t; std::atomic<int> in{ 0 }; const int n = (int)sim::rng(2, 4); sim::context("%d concurrent readers", n);
	crew(n, [&](int) { S::lockShared(*l); in++; while (in.load() < n) std::this_thread::yield(); S::unlockShared(*l); }); delete l; sim::probe("coreaders", n);
}
// ---- waiting -------------------------------------------------------------------------------------------
// ping-pong: thread i may go when turn % n == i; every hand-over needs a delivered wake-up
template<class S, class M, class CV, int MODE> static void s_pingpong() {
	const int n = (int)sim::rng(2, 4), rounds = (int)sim::rng(1, 6); const bool all = n > 2 || sim::chance(.5), inside = sim::chance(.5); M* m = new M; CV* cv = new CV; uint64_t turn = 0; uint64_t* pt = &turn;
	sim::context("hand-over between %d threads, %d rounds, mode %d", n, rounds, MODE);
	crew(n, [=](int id) { for (int r = 0; r < rounds; ++r) {
		auto pred = [pt, n, id]() { return *pt % n == (uint64_t)id; };
		if (MODE == 0) S::lock_wait_unlock(*m, *cv, pred); else if (MODE == 1) S::lockShared_wait_unlock(*m, *cv, pred); else S::lockShared_waitFor_unlock(*m, *cv, std::chrono::hours(20), pred);
		m->lock(); if (!pred()) sim::fail("wait", "a wait ended although its condition did not hold"); ++*pt; if (inside) { if (all) cv->notify_all(); else cv->notify_one(); } m->unlock(); if (!inside) { if (all) cv->notify_all(); else cv->notify_one(); } } });
	if (turn != (uint64_t)n * rounds) sim::fail("wait", "%llu hand-overs instead of %d", (unsigned long long)turn, n * rounds); delete cv; delete m; sim::probe("handovers", turn);
}
// direct use of the condition variable with lock objects
template<class S> static void s_queue() {
	typedef typename S::shared_mutex_t M; typedef typename S::cond_var_any_t CV; M* m = new M; CV* cv = new CV; const int nc = (int)sim::rng(1, 3), items = (int)sim::rng(1, 8); int q = 0; bool end = false; int got = 0; int *pq = &q, *pg = &got; bool* pe = &end;
	sim::context("queue: %d consumers, %d items", nc, items);
	crew(nc + 1, [=](int id) {
		if (!id) { for (int i = 0; i < items; ++i) { { std::unique_lock<M> g(*m); ++*pq; } cv->notify_one(); } { std::unique_lock<M> g(*m); *pe = true; } cv->notify_all(); }
		else for (;;) { std::unique_lock<M> g(*m); cv->wait(g, [=] { return *pq > 0 || *pe; }); if (*pq > 0) { --*pq; ++*pg; } else if (*pe) break; else sim::fail("wait", "a wait ended although its condition did not hold"); } });
	if (got != items) sim::fail("wait", "%d of %d items were consumed", got, items); delete cv; delete m;
}
// ---- timed waiting ----------------------------------------------------------------------------------------
template<class S, bool quiet> static void s_timed() {
	typedef typename S::shared_mutex_t M; typedef typename S::cond_var_any_t CV; M* m = new M; CV* cv = new CV; const int nw = quiet ? 1 : (int)sim::rng(1, 3), k = (int)sim::rng(1, 5); int flag = 0; int* pf = &flag; const uint64_t r0 = sim::rnd(); std::atomic<int> left{ nw }; auto* pl = &left;
	sim::context("timed waits: %d waiters, %d rounds%s", nw, k, quiet ? ", nobody signals" : "");
	crew(nw + (quiet ? 0 : 1), [=](int id) {
		if (id == nw) { uint64_t z = r0; while (pl->load()) { z = z * 6364136223846793005ull + 11; std::this_thread::sleep_for(std::chrono::milliseconds((z >> 33) % 30)); m->lock(); if ((z >> 50) & 1) *pf = 1; m->unlock(); if ((z >> 51) & 1) cv->notify_all(); else cv->notify_one(); } return; }
		for (int i = 0; i < k; ++i) {
			const uint64_t z = (r0 + id * 977 + i * 7919) * 6364136223846793005ull; const int ms = 1 + (int)((z >> 33) % 40); const int how = (int)((z >> 45) & 3); const std::chrono::milliseconds rel(ms); const uint64_t t0 = sim::now_ns(); const uint64_t need = (uint64_t)ms * 1000000;
			auto pred = [pf] { return *pf > 0; };
			if (how < 2) { std::cv_status st; if (how == 0) { std::unique_lock<M> g(*m); st = cv->wait_for(g, rel); } else { std::shared_lock<M> g(*m); st = cv->wait_for(g, rel); }
				const uint64_t el = sim::now_ns() - t0; if (st == std::cv_status::timeout && el < need) sim::fail("timed", "a wait of %d ms reports a time-out after %.3f ms", ms, el * 1e-6); if (quiet && st == std::cv_status::no_timeout) sim::fail("timed", "a wait of %d ms nobody signalled reports a signal", ms); if (quiet && el < need) sim::fail("timed", "a wait of %d ms nobody signalled ended after %.3f ms", ms, el * 1e-6); sim::probe(st == std::cv_status::timeout ? "timed_out" : "timed_signal"); }
			else { bool r, p; if (how == 2) { std::unique_lock<M> g(*m); r = cv->wait_for(g, rel, pred); p = pred(); } else { std::shared_lock<M> g(*m); r = cv->wait_for(g, rel, pred); p = pred(); }
				const uint64_t el = sim::now_ns() - t0; if (r && !p) sim::fail("timed", "a conditional wait reports success although its condition does not hold"); if (!r && p) sim::fail("timed", "a conditional wait reports a time-out although its condition holds"); if (!r && el < need) sim::fail("timed", "a conditional wait of %d ms gave up after %.3f ms", ms, el * 1e-6); sim::probe(r ? "cond_true" : "cond_timeout_reported");
				if (how == 2) { m->lock(); *pf = 0; m->unlock(); } }
		}
		--*pl; });
	delete cv; delete m;
}
static void tune_quiet(sim::Knobs& k) { k.p_spurious = 0; }
#define T2(n, f) SIM_SCENARIO(P20, n##_win, f<Win>, nullptr, 1) SIM_SCENARIO(P20, n##_std, f<Std>, nullptr, 1) SIM_SCENARIO(P20, n##_def, f<Def>, nullptr, 1)
SIM_SCENARIO(P20, spin, s_spin, nullptr, 3)
T2(mutex, s_mutex) T2(shared, s_shared) T2(coread, s_coread) T2(queue, s_queue) SIM_SCENARIO(P20, shared_excl, s_shared2<Win>, nullptr, 1)
template<class S> static void pp0() { s_pingpong<S, typename S::mutex_t, typename S::cond_var_t, 0>(); } template<class S> static void pp1() { s_pingpong<S, typename S::shared_mutex_t, typename S::cond_var_any_t, 1>(); } template<class S> static void pp2() { s_pingpong<S, typename S::shared_mutex_t, typename S::cond_var_any_t, 0>(); } template<class S> static void pp3() { s_pingpong<S, typename S::shared_mutex_t, typename S::cond_var_any_t, 2>(); } template<class S> static void pp4() { s_pingpong<S, typename S::mutex_t, typename S::cond_var_t, 1>(); }
T2(handover, pp0) T2(handover_shared, pp1) T2(handover_any, pp2) T2(handover_excl, pp4)
template<class S> static void tq() { s_timed<S, true>(); } template<class S> static void tn() { s_timed<S, false>(); }
T2(timed, tn) SIM_SCENARIO(P20, timed_quiet_win, tq<Win>, tune_quiet, 1) SIM_SCENARIO(P20, timed_quiet_std, tq<Std>, tune_quiet, 1) SIM_SCENARIO(P20, timed_quiet_def, tq<Def>, tune_quiet, 1)
