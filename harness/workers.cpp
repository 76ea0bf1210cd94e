// Worker pool: P01 exactly-once, P02 reduction, P03 lifecycle, P05 floating point mode, P19 priorities
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
namespace sim { static nullbuf nb; std::ostream nullout(nullptr); }
using namespace nntl;
typedef threads::Workers<float, size_t, threads::win_sync_primitives> WWin;
typedef threads::Workers<float, size_t, threads::std_sync_primitives> WStd;
typedef threads::Workers<double, int, threads::std_sync_primitives, utils::forwarderWrapper<>> WFwd;
typedef threads::Workers<float, size_t, threads::win_sync_primitives, utils::simpleWrapper<std::function>> WFun;

// record of one parallel call, kept outside of the simulated heap
struct Rec { uint64_t ofs, cnt; int tid, thr; };
struct Log { std::vector<Rec> v; void add(uint64_t o, uint64_t c, int tid) { sim::Oracle g; v.push_back(Rec{ o, c, tid, sim::self() }); } };

template<class W> static void check_cover(const Log& L, uint64_t cnt, int useN, int maxT, int thrUsed, bool reduce) {
	sim::Oracle g;
	uint64_t sum = 0; uint64_t seen = 0, thr = 0;
	for (auto& r : L.v) {
		sum += r.cnt;
		if (r.ofs + r.cnt > cnt) sim::fail("cover", "range [%llu,%llu) outside of [0,%llu)", (unsigned long long)r.ofs, (unsigned long long)(r.ofs + r.cnt), (unsigned long long)cnt);
		if (r.tid < 0 || r.tid >= maxT) sim::fail("cover", "thread id %d out of [0,%d)", r.tid, maxT);
		if (seen >> r.tid & 1) sim::fail("cover", "two ranges carry the same thread id %d", r.tid);
		seen |= 1ull << r.tid;
		if (thr >> r.thr & 1) sim::fail("cover", "one thread executed two ranges of the same call");
		thr |= 1ull << r.thr;
		if (cnt && !r.cnt) sim::fail("cover", "empty range handed out although there was work");
		if ((r.tid == 0) != (r.thr == 0)) sim::fail("cover", "thread id 0 must be the calling thread");
	}
	if (seen & (seen + 1)) sim::fail("cover", "thread ids are not dense: mask %llx", (unsigned long long)seen);
	if (sum != cnt) sim::fail("cover", "%llu of %llu items were processed", (unsigned long long)sum, (unsigned long long)cnt);
	if (useN > 1 && useN <= maxT && (int)L.v.size() > useN) sim::fail("cover", "%zu threads used, at most %d were allowed", L.v.size(), useN);
	if (thrUsed >= 0 && thrUsed != (int)L.v.size()) sim::fail("cover", "%d threads reported, %zu took part", thrUsed, L.v.size());
}
template<class W> struct Big { // functor that does not fit the small storage and must not be used after the call
	uint32_t* cell; Log* L; uint64_t* heap; uint64_t pad[6];
	void operator()(const typename W::par_range_t& r) const {
		L->add((uint64_t)r.offset(), (uint64_t)r.cnt(), (int)r.tid());
		for (auto i = r.offset(); i < r.end(); ++i) cell[i] += (uint32_t)heap[0];
	}
};
static uint64_t pick_cnt(int nw) {
	switch (sim::rnd(6)) { case 0: return sim::rnd(4); case 1: return nw + sim::rnd(3) - 1; case 2: return sim::rng(1, 3 * nw); case 3: return sim::rng(1, 40); case 4: return nw * sim::rng(1, 9); default: return sim::rng(1, 120); }
}
template<class W> static void one_run(W& w, int op) {
	typedef typename W::par_range_t R; typedef typename W::range_t range_t;
	const int nw = (int)w.cur_workers_count();
	uint64_t cnt = pick_cnt(nw); int useN = sim::chance(.4) ? (int)sim::rng(0, nw + 2) : 0; int kind = (int)sim::rnd(4); bool rep = sim::chance(.5);
	if (!sim::keep_op()) return;
	sim::context("run op %d kind %d cnt %llu useN %d workers %d", op, kind, (unsigned long long)cnt, useN, nw);
	uint32_t* cell = (uint32_t*)malloc(sizeof(uint32_t) * (cnt + 1)); for (uint64_t i = 0; i <= cnt; ++i) cell[i] = 5;
	Log* L; { sim::Oracle g; L = new Log; }
	thread_id_t used = 0;
	uint64_t* hv = (uint64_t*)malloc(8); *hv = 3;
	switch (kind) {
	case 0: { // small lambda, rvalue
		struct Ctx { uint32_t* c; Log* L; } ctx{ cell, L };
		w.run([p = &ctx](const R& r) { p->L->add(r.offset(), r.cnt(), r.tid()); for (range_t i = r.offset(); i < r.end(); ++i) p->c[i] += 3; }, (range_t)cnt, useN, rep ? &used : nullptr);
		break; }
	case 1: { // large functor, lvalue on the heap, released right after the call
		auto* b = new Big<W>; b->cell = cell; b->L = L; b->heap = hv; w.run(*b, (range_t)cnt, useN, rep ? &used : nullptr); delete b;
		break; }
	case 2: { // large temporary
		uint64_t a = 1, b = 1, c = 1; w.run([&, cell, L](const R& r) { L->add(r.offset(), r.cnt(), r.tid()); for (range_t i = r.offset(); i < r.end(); ++i) cell[i] += (uint32_t)(a + b + c); }, (range_t)cnt, useN, rep ? &used : nullptr);
		break; }
	default: { // two writes per item with room for preemption
		struct Ctx { uint32_t* c; Log* L; } ctx{ cell, L }; auto fn = [p = &ctx](const R& r) { p->L->add(r.offset(), r.cnt(), r.tid()); for (range_t i = r.offset(); i < r.end(); ++i) { p->c[i]++; sim::yield(); p->c[i] += 2; } };
		w.run(fn, (range_t)cnt, useN, rep ? &used : nullptr); }
	}
	free(hv);
	for (uint64_t i = 0; i < cnt; ++i) if (cell[i] != 8) sim::fail("cover", "item %llu of %llu was processed %s (value %u)", (unsigned long long)i, (unsigned long long)cnt, cell[i] == 5 ? "never" : "not exactly once", cell[i]);
	if (cell[cnt] != 5) sim::fail("cover", "an item past the end was processed");
	free(cell);
	if (cnt == 0) { sim::Oracle g; for (auto& r : L->v) if (r.cnt) sim::fail("cover", "work handed out for an empty call"); }
	else check_cover<W>(*L, cnt, useN, nw, rep ? (int)used : -1, false);
	{ sim::Oracle g; sim::note(L->v.size()); sim::probe("parallel_runs"); if (L->v.size() > 1) sim::probe("parallel_runs_multi"); delete L; }
}
template<class T> static bool same(T a, T b) { return !memcmp(&a, &b, sizeof a); }
template<class W, class T> static T do_reduce(W& w, const T* data, uint64_t cnt, int useN, Log* L, int kind) {
	typedef typename W::par_range_t R; typedef typename W::range_t range_t; typedef typename W::reduce_data_t rd_t; typedef typename W::template converter_reduce_data_t<T> conv;
	struct Ctx { const T* d; Log* L; size_t nred; } ctx{ data, L, 0 }; Ctx* p = &ctx;
	T v;
	auto fin = [p](const rd_t* a, const range_t n) noexcept -> T { p->nred = (size_t)n; T s = conv::from(a[0]); for (range_t i = 1; i < n; ++i) s += conv::from(a[i]); return s; };
	if (kind == 0) v = w.reduce([p](const R& r)noexcept -> rd_t { p->L->add(r.offset(), r.cnt(), r.tid()); T s = 0; for (range_t i = r.offset(); i < r.end(); ++i) s += p->d[i]; return conv::to(s); }, fin, (range_t)cnt, useN);
	else { uint64_t pad[4] = { 1, 2, 3, 4 }; auto f = [p, pad](const R& r)noexcept -> rd_t { p->L->add(r.offset(), r.cnt(), r.tid()); T s = 0; for (range_t i = r.offset(); i < r.end(); ++i) s += p->d[i] * (T)pad[0]; return conv::to(s); }; v = w.reduce(f, fin, (range_t)cnt, useN); }
	if (ctx.nred && ctx.nred != L->v.size()) sim::fail("reduce", "%zu partial results were combined, %zu were computed", ctx.nred, L->v.size());
	if (!ctx.nred && L->v.size() != 1) sim::fail("reduce", "no final combination although %zu partial results exist", L->v.size());
	return v;
}
template<class W> static void one_reduce(W& w, int op) {
	const int nw = (int)w.cur_workers_count();
	uint64_t cnt = pick_cnt(nw); if (!cnt) cnt = 1; int useN = sim::chance(.4) ? (int)sim::rng(0, nw + 2) : 0; int kind = (int)sim::rnd(2), ty = (int)sim::rnd(3), rep = (int)sim::rng(1, 3); uint64_t ds = sim::rnd();
	if (!sim::keep_op()) return;
	sim::context("reduce op %d kind %d type %d cnt %llu useN %d workers %d", op, kind, ty, (unsigned long long)cnt, useN, nw);
	auto go = [&](auto tag) {
		typedef decltype(tag) T; T* d = (T*)malloc(sizeof(T) * cnt); uint64_t z = ds; double exact = 0; bool integral = std::is_integral<T>::value;
		for (uint64_t i = 0; i < cnt; ++i) { z = z * 6364136223846793005ull + 1442695040888963407ull; d[i] = integral ? (T)(int64_t)(z >> 40) : (T)((double)(int64_t)(z >> 33) * 1e-3 - 1e6); exact += integral ? (double)d[i] : 0; }
		T first{}; for (int k = 0; k < rep; ++k) {
			Log* L; { sim::Oracle g; L = new Log; }
			T v = do_reduce<W, T>(w, d, cnt, useN, L, kind); check_cover<W>(*L, cnt, useN, nw, -1, true);
			if (integral && (double)v != exact) sim::fail("reduce", "reduction returned %g instead of %g", (double)v, exact);
			if (!integral) { double e = 0, m = 0; for (uint64_t i = 0; i < cnt; ++i) { e += (double)d[i]; m += std::fabs((double)d[i]); } if (!(std::fabs((double)v - e) <= m * 1e-4 * (sizeof(T) == 8 ? 1e-6 : 1))) sim::fail("reduce", "reduction returned %g, expected about %g", (double)v, e); }
			if (k && !same(v, first)) sim::fail("reduce-determinism", "the same reduction returned %.17g and then %.17g", (double)first, (double)v);
			first = v; { sim::Oracle g; sim::note_bytes(&v, sizeof v); sim::probe("reductions"); delete L; }
		}
		free(d);
	};
	if (ty == 0) go((uint64_t)0); else if (ty == 1) go((typename W::real_t)0); else go((double)0);
}
template<class W> static void s_cover() { global_denormalized_floats_mode(); W w; int n = (int)sim::rng(1, 8); for (int i = 0; i < n; ++i) if (sim::chance(.85)) one_run(w, i); else one_reduce(w, i); }
template<class W> static void s_reduce() { global_denormalized_floats_mode(); W w; int n = (int)sim::rng(1, 7); for (int i = 0; i < n; ++i) if (sim::chance(.8)) one_reduce(w, i); else one_run(w, i); }
// the same sequence on two pools of the same size must give identical bits whatever the schedule
template<class W> static void s_reduce2() {
	typedef typename W::real_t T; global_denormalized_floats_mode(); uint64_t cnt = sim::rng(2, 200); int useN = sim::chance(.3) ? (int)sim::rng(0, 6) : 0; T* d = (T*)malloc(sizeof(T) * cnt); for (uint64_t i = 0; i < cnt; ++i) d[i] = (T)((double)sim::rnd(1u << 30) * 1e-4 - 3e4);
	sim::context("reduce on two pools cnt %llu", (unsigned long long)cnt); T r[2];
	for (int k = 0; k < 2; ++k) { W w; Log* L; { sim::Oracle g; L = new Log; } r[k] = do_reduce<W, T>(w, d, cnt, useN, L, 0); sim::Oracle g; delete L; }
	free(d); if (!same(r[0], r[1])) sim::fail("reduce-determinism", "two pools of the same size returned %.9g and %.9g", (double)r[0], (double)r[1]); sim::note_bytes(r, sizeof r);
}
template<class W> static void s_life() {
	global_denormalized_floats_mode(); int n = (int)sim::rng(1, 4);
	for (int i = 0; i < n; ++i) { bool two = sim::chance(.2); int k = (int)sim::rng(0, 3); if (sim::chance(.5)) k = 0; if (!sim::keep_op()) continue;
		sim::context("lifecycle round %d: %d runs%s", i, k, two ? ", two pools" : "");
		{ W* w = new W; W* w2 = two ? new W : nullptr; for (int j = 0; j < k; ++j) { one_run(*w, j); if (w2) one_run(*w2, j); } sim::context("destroying the pool, round %d", i); delete w; delete w2; }
		if (sim::live_threads()) sim::fail("lifecycle", "%d worker threads still exist after the pool was destroyed", sim::live_threads()); sim::probe("pools"); }
}
template<class W> static void s_fp() {
	typedef typename W::par_range_t R; const bool denorm = sim::chance(.25); // true: the caller has not asked for the global mode
	if (!denorm) global_denormalized_floats_mode();
	W w; const int nw = (int)w.cur_workers_count(); unsigned mx[64]; const unsigned want = sim::mxcsr() & 0xE040u;
	int n = (int)sim::rng(1, 5);
	for (int i = 0; i < n; ++i) {
		int what = (int)sim::rnd(3), victim = (int)sim::rnd(nw); if (!sim::keep_op()) continue;
		sim::context("fp op %d kind %d victim %d workers %d", i, what, victim, nw);
		for (auto& m : mx) m = 1;
		unsigned* pm = mx; thread_id_t used = 0;
		if (what == 0 || what == 1) {
			bool any = w.denormalsOnInAnyThread();
			if (any != denorm) sim::fail("fpmode", "pool reports denormals %s although they are %s", any ? "on" : "off", denorm ? "on in the calling thread" : "off everywhere");
		}
		if (what == 1 && !denorm) { // switch one thread to denormals: must be noticed
			w.run([victim](const R& r) { if ((int)r.tid() == victim) enable_denormals(); }, nw, nw);
			if (!w.denormalsOnInAnyThread()) sim::fail("fpmode", "denormals switched on in thread %d were not noticed", victim);
			w.run([victim](const R& r) { if ((int)r.tid() == victim) disable_denormals(); }, nw, nw);
			if (w.denormalsOnInAnyThread()) sim::fail("fpmode", "denormals reported on after they were switched off again");
		}
		w.run([pm](const R& r) { pm[r.tid()] = sim::mxcsr() & 0xE040u; }, nw, 0, &used);
		for (int t = 0; t < (int)used; ++t) if (pm[t] != (t ? 0xE040u : want)) sim::fail("fpmode", "worker %d runs with floating point control %#x instead of %#x", t, pm[t], t ? 0xE040u : want);
		// and the arithmetic agrees
		volatile float tiny = 1e-30f; volatile float* pt = &tiny; float res[64]; float* pr = res; if (!denorm) { w.run([pt, pr](const R& r) { pr[r.tid()] = *pt * 1e-10f + (1.0f + 5.9e-8f); }, nw, 0, &used); for (int t = 1; t < (int)used; ++t) if (res[t] != res[0]) sim::fail("fpmode", "thread %d computes %.9g where the caller computes %.9g", t, res[t], res[0]); }
		sim::probe("fp_checks");
	}
}
template<class W, threads::PriorityClass PC> static void prio(W& w, bool all) {
	const int nt = sim::threads(); std::vector<int> before, after; unsigned long cls = sim::priority_class(); { sim::Oracle g; for (int i = 0; i < nt; i++) before.push_back(sim::thread_priority(i)); }
	const uint64_t f0 = sim::sys_failures(); bool changed = false;
	{ sim::sys_faults(true); threads::prioritize_workers<PC, W> pw(w, all); sim::sys_faults(false);
		const uint64_t f1 = sim::sys_failures(); { sim::Oracle g; int diff = 0; for (int i = 0; i < nt; i++) if (sim::thread_priority(i) != before[i]) diff++; changed = diff || sim::priority_class() != cls;
		if (f1 != f0 && changed) sim::fail("priority", "a failed priority change left %d thread(s) and/or the process with a changed priority", diff);
		if (f1 == f0 && !changed) sim::fail("priority", "priorities were not changed although no call failed"); }
		one_run(w, 0);
	}
	{ sim::Oracle g; for (int i = 0; i < nt; i++) if (sim::thread_priority(i) != before[i]) sim::fail("priority", "thread %d keeps priority %d instead of %d after the prioritised section", i, sim::thread_priority(i), before[i]); before.clear(); before.shrink_to_fit(); }
	if (sim::priority_class() != cls) sim::fail("priority", "the process keeps priority class %#lx instead of %#lx", sim::priority_class(), cls);
	sim::probe(changed ? "prio_sections" : "prio_rollbacks");
}
static void s_prio() {
	global_denormalized_floats_mode(); WWin w; int base = (int)sim::rng(-2, 2); unsigned long cls = sim::chance(.5) ? 0x20 : 0x8000; for (int i = 0; i < sim::threads(); ++i) sim::set_priority(i, base, cls);
	int n = (int)sim::rng(1, 3); for (int i = 0; i < n; ++i) { bool all = sim::chance(.7); int m = (int)sim::rnd(2); if (!sim::keep_op()) continue; sim::context("prioritised section %d mode %d all %d", i, m, all);
		if (m) prio<WWin, threads::PriorityClass::Working>(w, all); else prio<WWin, threads::PriorityClass::PerfTesting>(w, all); }
}
static void tune_prio(sim::Knobs& k) { k.p_sysfail = 0.15; k.max_sysfail = 1; }
#define S4(P, n, f, wt) SIM_SCENARIO(P, n##_win, f<WWin>, nullptr, wt) SIM_SCENARIO(P, n##_std, f<WStd>, nullptr, wt) SIM_SCENARIO(P, n##_fwd, f<WFwd>, nullptr, 1) SIM_SCENARIO(P, n##_fun, f<WFun>, nullptr, 1)
S4(P01, cover, s_cover, 2)
S4(P02, reduce, s_reduce, 2)
SIM_SCENARIO(P02, twopools_win, s_reduce2<WWin>, nullptr, 1) SIM_SCENARIO(P02, twopools_std, s_reduce2<WStd>, nullptr, 1)
S4(P03, life, s_life, 2)
S4(P05, fp, s_fp, 2)
SIM_SCENARIO(P19, prio, s_prio, tune_prio, 1)
S4(P04, cover, s_cover, 1) S4(P04, reduce, s_reduce, 1) S4(P04, life, s_life, 1)
