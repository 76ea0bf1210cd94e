// Background workers: P05 floating point mode, P08 exec, P09 tasks, P10 circular data buffer, P19 priorities
#include <map>
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
#include <nntl/interface/threads/bgworkers.h>
#include <nntl/utils/data_buffer.h>
namespace sim { std::ostream nullout(nullptr); }
using namespace nntl;
typedef threads::BgWorkers<threads::win_sync_primitives> BWin;
typedef threads::BgWorkers<threads::std_sync_primitives> BStd;
typedef threads::BgWorkers<threads::std_sync_primitives, utils::forwarderWrapper<>> BFwd;
static void msleep(double ms) { std::this_thread::sleep_for(std::chrono::nanoseconds((int64_t)(ms * 1e6))); }

struct Reg; // registry of tasks, outside of the simulated heap
struct Call { int thr, wid, task; };
struct Hist { std::vector<Call> calls; int ntasks = 0; std::vector<int> prio; std::vector<int> last, lastret; bool armed = true; std::vector<char> armedw; };
static Hist* H;
// a background task. Returns true `more` times after each refill, then false
struct Task {
	int id, prio; uint32_t* state; int burst; bool forever;
	bool operator()(const thread_id_t wid) {
		bool ret = forever;
		{ sim::Oracle g;
			int w = (int)wid; if ((int)H->last.size() <= w) { H->last.resize(w + 1, -1); H->lastret.resize(w + 1, 0); }
			int a = H->last[w]; if (!H->armed && ((int)H->armedw.size() <= w || !H->armedw[w])) { H->calls.push_back(Call{ sim::self(), w, id }); goto run; }
			{ // order by priority: from a, a worker goes on to a itself, to the next lower priority once a reported no more work, or starts over
			auto higher = [&](int x) { int n = 0; for (int p : H->prio) if (p > H->prio[x]) n++; return n; };
			int rb = higher(id); bool top = rb == 0;
			if (!top && a != id) { if (a < 0) sim::fail("task-order", "worker %d started with task of priority %d although %d task(s) have higher priority", w, prio, rb);
				int ra = higher(a); if (ra + 1 != rb) sim::fail("task-order", "worker %d went from priority %d to priority %d, skipping other tasks", w, H->prio[a], prio);
				if (H->lastret[w]) sim::fail("task-order", "worker %d left the task of priority %d for priority %d although it had more work", w, H->prio[a], prio); }
			if (!top && a == id && !H->lastret[w]) sim::fail("task-order", "worker %d called the task of priority %d again right after it reported no work, although higher priority tasks exist", w, prio);
			H->last[w] = id; H->calls.push_back(Call{ sim::self(), w, id }); sim::probe("task_calls"); }
			run:;
		}
		{ unsigned m = sim::mxcsr() & 0xE040u; if (m != 0xE040u) sim::fail("fpmode", "a background task runs on worker %d with floating point control %#x instead of %#x", (int)wid, m, 0xE040u); }
		sim::spend(forever ? 200000 : 20000);
		state[wid]++; // plain memory, one cell per worker, freed right after delete_tasks()
		if (!forever) ret = burst > 0 && (state[wid] % (uint32_t)(burst + 1)) != 0;
		{ sim::Oracle g; H->lastret[(int)wid] = ret; }
		return ret;
	}
};
template<class B> struct Env {
	B* b; int n; std::vector<Task*> tasks; bool forever;
	Env(int nthreads, bool useDef) { { sim::Oracle g; H = new Hist; } b = useDef ? new B() : new B((thread_id_t)nthreads, threads::PriorityClass::threads_priority_no_change); n = (int)b->workers_count(); forever = false; }
	~Env() { delete b; for (auto* t : tasks) { free(t->state); delete t; } sim::Oracle g; delete H; H = nullptr; }
	void add(int prio, int burst, bool fe) { Task* t = new Task; t->prio = prio; t->burst = burst; t->forever = fe; t->state = (uint32_t*)calloc(n, 4); { sim::Oracle g; t->id = H->ntasks++; } tasks.push_back(t);
		H_sync(prio); b->add_task(*t, prio); }
	void H_sync(int prio) { // order checks restart with a changed task set: quiesce by temporarily deleting is not possible here, so tasks are only added in one batch
		sim::Oracle g; H->prio.push_back(prio); }
	void del() { b->delete_tasks(); for (auto* t : tasks) { free(t->state); delete t; } tasks.clear(); sim::Oracle g; H->prio.clear(); H->ntasks = 0; H->last.clear(); H->lastret.clear(); H->calls.clear(); H->armed = true; H->armedw.clear(); }
	uint64_t calls(int id) { sim::Oracle g; uint64_t c = 0; for (auto& x : H->calls) if (x.task == id) c++; return c; }
};
// tasks are added with falling priority so that every prefix of the set is a valid set in the order check
template<class B> static void add_batch(Env<B>& e, int k, bool fe) { int p = 100; for (int i = 0; i < k; ++i) { p -= 1 + (int)sim::rnd(5); e.add(p, (int)sim::rnd(4), fe && i == k - 1); } }
// tasks are added in any order; the order check of a worker starts when a function sent to it after that has run there (it starts over with the task of highest priority)
template<class B> static void add_any(Env<B>& e, int k, bool fe) {
	int p[8], q[8]; for (int i = 0, v = 100; i < k; ++i) { v -= 1 + (int)sim::rnd(5); p[i] = q[i] = v; } for (int i = k - 1; i > 0; --i) std::swap(p[i], p[(int)sim::rnd(i + 1)]); { sim::Oracle g; H->armed = false; H->armedw.clear(); }
	for (int i = 0; i < k; ++i) { e.add(p[i], (int)sim::rnd(4), fe && p[i] == q[k - 1]); if (sim::chance(.2)) msleep((double)sim::rnd(20)); }
	e.b->exec([](const thread_id_t t) { sim::Oracle g; if (H->armedw.size() <= (size_t)t) H->armedw.resize((size_t)t + 1, 0); H->armedw[t] = 1; if (H->last.size() <= (size_t)t) { H->last.resize((size_t)t + 1, -1); H->lastret.resize((size_t)t + 1, 0); } H->last[t] = -1; }); sim::probe("any_order");
}
template<class B> static void one_exec(Env<B>& e, int op) {
	int kind = (int)sim::rnd(3); if (!sim::keep_op()) return; sim::context("exec op %d kind %d workers %d tasks %zu", op, kind, e.n, e.tasks.size());
	uint32_t* c = (uint32_t*)calloc(e.n, 4); int* thr = (int*)calloc(e.n, sizeof(int)); uint64_t pad[5] = { 1, 1, 1, 1, 1 };
	if (kind == 0) { struct X { uint32_t* c; int* thr; } x{ c, thr }; auto* px = &x; e.b->exec([px](const thread_id_t t) { px->c[t]++; px->thr[t] = sim::self(); }); }
	else if (kind == 1) { auto f = [c, thr, pad](const thread_id_t t) { sim::yield(); c[t] += (uint32_t)pad[1]; thr[t] = sim::self(); sim::yield(); }; e.b->exec(f); }
	else { struct F { uint32_t* c; int* thr; uint64_t pad[3]; void operator()(const thread_id_t t) { c[t] += 1; thr[t] = sim::self(); } }; F* f = new F; f->c = c; f->thr = thr; e.b->exec(*f); delete f; }
	for (int i = 0; i < e.n; ++i) { if (c[i] != 1) sim::fail("exec", "the function ran %u times on worker %d of %d", c[i], i, e.n); for (int j = 0; j < i; ++j) if (thr[i] == thr[j]) sim::fail("exec", "workers %d and %d are the same thread", i, j); if (thr[i] == 0) sim::fail("exec", "the function ran on the calling thread"); }
	free(c); free(thr); sim::probe("exec_calls");
}
template<class B, bool tasks> static void s_exec() {
	Env<B> e((int)sim::rng(1, 4), sim::chance(.2)); int n = (int)sim::rng(1, 6);
	for (int i = 0; i < n; ++i) {
		if (tasks && sim::chance(.4)) { if (e.tasks.empty()) { int k = (int)sim::rng(1, 3); add_batch(e, k, false); } else if (sim::chance(.5)) e.del(); }
		if (tasks && sim::chance(.3)) { double to = 1 + (double)sim::rnd(20); e.b->set_task_wait_timeout(std::chrono::milliseconds((int)to)); }
		if (sim::chance(.3)) msleep((double)sim::rnd(30));
		one_exec(e, i);
	}
}
template<class B> static void s_exec_busy() { // a task that always has more work must not keep exec() from being served
	Env<B> e((int)sim::rng(1, 3), false); int k = (int)sim::rng(1, 2); add_batch(e, k, true); int n = (int)sim::rng(1, 3); for (int i = 0; i < n; ++i) { if (sim::chance(.6)) msleep((double)sim::rnd(40)); one_exec(e, i); }
}
template<class B, bool fe> static void s_tasks() {
	Env<B> e((int)sim::rng(1, 4), sim::chance(.2)); int n = (int)sim::rng(1, 4);
	if (sim::chance(.4)) e.b->set_task_wait_timeout(std::chrono::milliseconds(1 + (int)sim::rnd(15)));
	for (int i = 0; i < n; ++i) {
		int k = (int)sim::rng(1, 4); bool wait = sim::chance(.6), ex = sim::chance(.2), end = i == n - 1 && sim::chance(.5); double idle = (double)sim::rnd(25); if (!sim::keep_op()) continue;
		sim::context("task round %d: %d tasks workers %d", i, k, e.n);
		if (sim::chance(.3)) e.b->expect_tasks_count(k);
		if (sim::chance(.5)) add_any(e, k, fe); else add_batch(e, k, fe);
		if ((int)e.b->tasks_count() != k) sim::fail("tasks", "%zu tasks registered instead of %d", e.b->tasks_count(), k);
		if (wait) { // every task gets served within bounded simulated time
			for (int t = 0; t < (fe ? 1 : k); ++t) { if (fe && k > 1) { } int guard = 0; while (!e.calls(t)) { msleep(5); if (++guard > 4000) sim::fail("task-starved", "task %d was not called within %d waits of 5 ms", t, guard); } }
			sim::probe("tasks_served");
		} else msleep(idle);
		if (ex) one_exec(e, 100 + i);
		if (end) break; // the pool is destroyed with its tasks registered
		e.del(); if (e.b->tasks_count()) sim::fail("tasks", "tasks remain after they were deleted");
		uint64_t c0; { sim::Oracle g; c0 = H->calls.size(); } if (sim::chance(.5)) msleep(30); { sim::Oracle g; if (H->calls.size() != c0) sim::fail("tasks", "a task ran after it had been deleted"); }
	}
}
//-----------------------------------------------------------------------------------------------------
template<class SyncT> static void s_buffer() {
	typedef utils::DataBuffer<double, SyncT> DB; const size_t total = sim::chance(.5) ? (size_t)sim::rng(1, 8) : (size_t)sim::rng(2, 60); const int np = (int)sim::rng(1, 3); const size_t maxreq = (size_t)sim::rng(1, (int64_t)total + 3);
	const int rounds = (int)sim::rng(1, 12); const bool same = sim::chance(.5);
	sim::context("circular buffer total %zu producers %d request %zu", total, np, maxreq);
	double* mem = (double*)malloc(sizeof(double) * total); DB* db = new DB(mem, total); std::atomic<int> stop{ 0 }; std::atomic<int> produced{ 0 };
	struct Mod { std::vector<double> order; std::map<double, int> seen; size_t consumed = 0; } *M; { sim::Oracle g; M = new Mod; }
	std::vector<std::thread> th;
	for (int p = 0; p < np; ++p) th.emplace_back([&, p] {
		double* tmp = (double*)malloc(sizeof(double) * (total + 4)); uint32_t seq = 0; uint64_t z = (uint64_t)p * 7919 + total;
		while (!stop.load()) {
			z = z * 6364136223846793005ull + 1; size_t want = same ? maxreq : 1 + (size_t)((z >> 33) % maxreq);
			size_t r = db->_as_should_work(want); if (r > want) sim::fail("buffer", "%zu values requested from a producer that offered %zu", r, want);
			if (!r) { std::this_thread::yield(); continue; }
			for (size_t i = 0; i < r; ++i) tmp[i] = (double)(p + 1) * 1e7 + ++seq;
			db->template _as_done<false>(tmp, r); produced += (int)r;
		}
		free(tmp); });
	size_t consumed = 0; std::vector<double> got; uint32_t lastseq[8] = { 0 };
	auto take = [&](size_t n, bool must, int feeders = 0, size_t k = 0) -> bool { // k > 0: several threads take k of the n values through a feeder, the others stay in the buffer
		for (int spin = 0;; ++spin) {
			auto br = db->acquire_data(n);
			if (br.acquired()) {
				size_t n1 = br.n1, n2 = br.isTwoArrays() ? br.n2 : 0; if (n1 + n2 != n) sim::fail("buffer", "asked for %zu values, got %zu", n, n1 + n2);
				if (br.ptr1 < mem || br.ptr1 + n1 > mem + total || (n2 && (br.ptr2 < mem || br.ptr2 + n2 > mem + total))) sim::fail("buffer", "range outside of the buffer");
				if (!feeders) k = n;
				auto drain = [&](auto& f, double scale) { double* out = (double*)malloc(sizeof(double) * k); std::atomic<size_t> idx{ 0 }; std::vector<std::thread> ft;
					for (int t = 0; t < feeders; ++t) ft.emplace_back([&, t] { const size_t cnt = k / feeders + (t < (int)(k % feeders) ? 1 : 0); for (size_t i = 0; i < cnt; ++i) { double v = f.next((thread_id_t)t); out[idx++] = v; } });
					for (auto& t : ft) t.join(); { sim::Oracle g; std::map<double, int> c; for (size_t i = 0; i < k; ++i) c[(i < n1 ? br.ptr1[i] : br.ptr2[i - n1]) * scale]++; for (size_t i = 0; i < k; ++i) if (--c[out[i]] < 0) sim::fail("buffer", "value %.9g was handed out twice or is not among the first %zu values of the range", out[i], k); }
					free(out); f.shrink(); sim::probe("feeder"); };
				for (int pass = 0; pass < 2; ++pass) for (size_t i = 0; i < k; ++i) { double v = i < n1 ? br.ptr1[i] : br.ptr2[i - n1]; sim::Oracle g;
					if (pass == 0) { int p = (int)(v / 1e7) - 1; uint32_t s = (uint32_t)(v - (p + 1) * 1e7); if (!(v >= 1e7 && p < np)) sim::fail("buffer", "value %g was never produced", v);
						if (s <= lastseq[p]) sim::fail("buffer", "value %u of producer %d delivered twice or out of order (last was %u)", s, p, lastseq[p]); if (s != lastseq[p] + 1) sim::fail("buffer", "values %u..%u of producer %d were lost", lastseq[p] + 1, s - 1, p); lastseq[p] = s; M->order.push_back(v); }
					else if (M->order[M->order.size() - k + i] != v) sim::fail("buffer", "a value handed to the consumer changed before it was released"); }
				consumed += k;
				if (!feeders) db->release_data(br); else if (k & 1) { utils::CircBufferFeeder<double, 0> f(br); drain(f, 1.0); db->release_data(f); } else { utils::CircBufferFeeder<double, 500000> f(std::move(br)); drain(f, 0.5); db->release_data(f); }
				 sim::probe("buffer_takes"); if (n2) sim::probe("buffer_wrapped"); return true;
			}
			if (!must) return false;
			if (spin > 1000000) sim::fail("buffer-starved", "%zu of %zu values did not become available", n, total);
			std::this_thread::yield();
		}
	};
	for (int i = 0; i < rounds; ++i) { size_t n = (size_t)sim::rng(1, (int64_t)total); bool must = sim::chance(.7); if (sim::chance(.3)) n = total; int fe = sim::chance(.25) ? (int)sim::rng(1, 3) : 0; size_t k = sim::chance(.3) ? n : (size_t)sim::rng(1, (int64_t)n); if (!sim::keep_op()) continue; sim::context("circular buffer total %zu producers %d request %zu take %zu (round %d, %d feeders, %zu used)", total, np, maxreq, n, i, fe, k); take(n, must, fe, k); }
	stop = 1; for (auto& t : th) t.join();
	int left = produced.load() - (int)consumed; if (left < 0 || left > (int)total) sim::fail("buffer", "%d values produced, %zu consumed, capacity %zu", produced.load(), consumed, total);
	for (int i = 0; i < left; ++i) if (!take(1, false)) sim::fail("buffer", "%d produced values are missing from the buffer", left - i);
	if (take(1, false)) sim::fail("buffer", "more values than were produced");
	if (!db->TestState()) sim::fail("buffer", "inconsistent buffer state");
	delete db; free(mem); { sim::Oracle g; delete M; }
}
template<class B> static void s_fp() { // every function and every task runs in the global mode, whatever mode the creator of the workers is in
	if (sim::chance(.7)) global_denormalized_floats_mode(); Env<B> e((int)sim::rng(1, 4), sim::chance(.2)); int n = (int)sim::rng(1, 4); e.b->set_task_wait_timeout(std::chrono::milliseconds(1 + (int)sim::rnd(8)));
	for (int i = 0; i < n; ++i) { int k = (int)sim::rng(0, 2); double idle = (double)sim::rnd(25); int what = (int)sim::rnd(3); if (!sim::keep_op()) continue; sim::context("background fp round %d: %d tasks", i, k);
		if (what == 1) { if (k) add_batch(e, k, false); msleep(idle); }
		unsigned* m = (unsigned*)calloc(e.n, sizeof(unsigned)); float* r = (float*)calloc(e.n, sizeof(float)); volatile float tiny = 1e-30f; volatile float* pt = &tiny;
		e.b->exec([m, r, pt](const thread_id_t t) { m[t] = sim::mxcsr() & 0xE040u; r[t] = *pt * 1e-10f + 1.0f; });
		for (int t = 0; t < e.n; ++t) { if (m[t] != 0xE040u) sim::fail("fpmode", "background worker %d runs with floating point control %#x instead of %#x", t, m[t], 0xE040u); if (r[t] != r[0]) sim::fail("fpmode", "background workers 0 and %d compute different values", t); }
		free(m); free(r); sim::probe("bg_fp_checks"); e.del(); }
}
template<class B> static void s_prio() { // the requested priority reaches every worker; a failing system call leaves all of them as they were
	int rounds = (int)sim::rng(1, 3);
	for (int i = 0; i < rounds; ++i) { int nth = (int)sim::rng(1, 5), kind = (int)sim::rnd(4); int base = sim::chance(.5) ? 0 : (int)sim::rng(-1, 2); if (!sim::keep_op()) continue; sim::context("background workers priorities round %d: %d workers kind %d base %d", i, nth, kind, base);
		sim::set_priority(0, base, sim::priority_class()); const unsigned long cls = sim::priority_class(); const uint64_t f0 = sim::sys_failures(); const int t0 = sim::threads(); { sim::Oracle g; H = new Hist; }
		sim::sys_faults(true); B* b = kind == 0 ? new B() : new B((thread_id_t)nth, kind == 1 ? threads::PriorityClass::threads_priority_no_change : kind == 2 ? threads::PriorityClass::threads_priority_below_current : threads::PriorityClass::threads_priority_below_current2); sim::sys_faults(false);
		const bool failed = sim::sys_failures() != f0; int want = kind == 1 ? 0 : kind == 3 ? base - 2 : base - 1; const int n = (int)b->workers_count();
		if (sim::threads() - t0 != n) sim::fail("priority", "%d threads were started for %d background workers", sim::threads() - t0, n);
		if (want < -2) want = 0; // refused by the system
		if (failed && base == 0 && n && sim::thread_priority(t0) == 0) want = 0; // all or none (a refused change of the priority boost has no effect on priorities)
		if (!failed || base == 0) for (int t = 0; t < n; ++t) if (sim::thread_priority(t0 + t) != want) sim::fail("priority", "background worker %d of %d has priority %d instead of %d%s", t, n, sim::thread_priority(t0 + t), want, failed ? " after a failed change" : "");
		if (sim::thread_priority(0) != base || sim::priority_class() != cls) sim::fail("priority", "creating background workers changed the priority of the caller or of the process"); sim::probe(failed ? "bg_prio_failed" : "bg_prio");
		uint32_t* c = (uint32_t*)calloc(n, 4); b->exec([c](const thread_id_t t) { c[t]++; }); for (int t = 0; t < n; ++t) if (c[t] != 1) sim::fail("exec", "the function ran %u times on worker %d", c[t], t); free(c); delete b; { sim::Oracle g; delete H; H = nullptr; } sim::set_priority(0, 0, cls); }
}
static void tune_prio(sim::Knobs& k) { k.p_sysfail = 0.15; k.max_sysfail = 1; }
#define S3(P, n, f, wt) SIM_SCENARIO(P, n##_win, f<BWin>, nullptr, wt) SIM_SCENARIO(P, n##_std, f<BStd>, nullptr, wt)
static void s_exec_win() { s_exec<BWin, false>(); } static void s_exec_std() { s_exec<BStd, false>(); } static void s_exect_win() { s_exec<BWin, true>(); } static void s_exect_std() { s_exec<BStd, true>(); } static void s_exect_fwd() { s_exec<BFwd, true>(); }
static void s_tasks_win() { s_tasks<BWin, false>(); } static void s_tasks_std() { s_tasks<BStd, false>(); } static void s_tasksf_win() { s_tasks<BWin, true>(); } static void s_tasksf_std() { s_tasks<BStd, true>(); }
SIM_SCENARIO(P08, exec_win, s_exec_win, nullptr, 1) SIM_SCENARIO(P08, exec_std, s_exec_std, nullptr, 1) SIM_SCENARIO(P08, exec_tasks_win, s_exect_win, nullptr, 2) SIM_SCENARIO(P08, exec_tasks_std, s_exect_std, nullptr, 2) SIM_SCENARIO(P08, exec_tasks_fwd, s_exect_fwd, nullptr, 1)
S3(P08, exec_busy, s_exec_busy, 1)
SIM_SCENARIO(P09, tasks_win, s_tasks_win, nullptr, 2) SIM_SCENARIO(P09, tasks_std, s_tasks_std, nullptr, 2) SIM_SCENARIO(P09, tasks_busy_win, s_tasksf_win, nullptr, 1) SIM_SCENARIO(P09, tasks_busy_std, s_tasksf_std, nullptr, 1)
SIM_SCENARIO(P10, buffer_spin, s_buffer<void>, nullptr, 1) SIM_SCENARIO(P10, buffer_win, s_buffer<threads::win_sync_primitives>, nullptr, 1) SIM_SCENARIO(P10, buffer_std, s_buffer<threads::std_sync_primitives>, nullptr, 1)
S3(P04, exec_busy, s_exec_busy, 1) SIM_SCENARIO(P04, tasks_win, s_tasks_win, nullptr, 1) SIM_SCENARIO(P04, tasks_std, s_tasks_std, nullptr, 1) SIM_SCENARIO(P04, exec_tasks_win, s_exect_win, nullptr, 1) SIM_SCENARIO(P04, exec_tasks_std, s_exect_std, nullptr, 1) SIM_SCENARIO(P04, buffer_spin, s_buffer<void>, nullptr, 1) SIM_SCENARIO(P04, buffer_std, s_buffer<threads::std_sync_primitives>, nullptr, 1)
S3(P05, bgfp, s_fp, 1)
SIM_SCENARIO(P19, bgprio_win, s_prio<BWin>, tune_prio, 1) SIM_SCENARIO(P19, bgprio_std, s_prio<BStd>, tune_prio, 1)
