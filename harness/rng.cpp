// Random number generators: P07 seeded reproducibility, complete in-range output, no number delivered twice; P04 races
#include <map>
#include <set>
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
#include <nntl/interface/rng/afrand.h>
#include <nntl/interface/rng/afrand_as.h>
#include <nntl/interface/rng/cstd.h>
namespace sim { std::ostream nullout(nullptr); }
using namespace nntl;
// A generator whose numbers are serial numbers: (stream, counter).  Two generators given the same seed share a stream.
struct CountRng {
	uint32_t stream; uint32_t n; uint64_t s;
	static std::map<std::string, uint32_t>* streams; static int epoch, base; static std::set<uint32_t>* bg;
	void open(const int* a, int k) { sim::Oracle g; std::string key((const char*)a, k * sizeof(int)); key.append((const char*)&epoch, sizeof epoch); key += (char)k; auto it = streams->find(key); if (it == streams->end()) { it = streams->emplace(key, (uint32_t)streams->size() + 1).first; if (k == 2 ? a[1] >= sim::knobs().ncpu : a[0] >= base + sim::knobs().ncpu) bg->insert(it->second); } stream = it->second; n = 0; s = stream * 77777ull + 5; }
	CountRng(int x) { open(&x, 1); } void RandomInit(int x) { open(&x, 1); } void RandomInitByArray(int const* a, int k) { open(a, k); }
	uint32_t BRandom() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (uint32_t)(z >> 32); }
	double Random() { return ((double)stream * 16777216.0 + (double)(++n)) * (1.0 / 137438953472.0); }
	int IRandomX(int a, int b) { return a + (int)(BRandom() % (uint32_t)(b - a + 1)); } int IRandom(int a, int b) { return IRandomX(a, b); }
	template<typename T> T FPRandom() { return (T)Random(); }
};
std::map<std::string, uint32_t>* CountRng::streams; int CountRng::epoch, CountRng::base; std::set<uint32_t>* CountRng::bg;
namespace nntl { namespace rng { namespace _impl { template<> struct AFRAND_MT_THR<CountRng, double> { static constexpr size_t bnd_gen_vector = 6, bnd_gen_vector_gtz = 7, bnd_gen_vector_norm = 5, bnd_bernoulli_vector = 4, bnd_normal_vector = 3; }; } } }
typedef threads::Workers<double, numel_cnt_t, threads::win_sync_primitives> ThrD; typedef threads::Workers<float, numel_cnt_t, threads::std_sync_primitives> ThrF;

// ---- operations --------------------------------------------------------------------------------------------
enum OpK { GV, GVNP, GVN, GTZ, GTZI, BERN, NORM, BIN, GI, GINT, GF, GFN, MTX, MTXNB, MTXANY, MTXN, MTXNNB, MTXG, MTXGNB, MNORM, MBERN, MBIN, GV_ST, GV_MT, GVNP_ST, GVNP_MT, GVN_ST, GVN_MT, GTZ_ST, GTZ_MT, BERN_ST, BERN_MT, NORM_ST, NORM_MT, NOPS };
static const char* OpN[] = { "gen_vector(a)","gen_vector(neg,pos)","gen_vector_norm","gen_vector_gtz","gen_vector_gtz<int>","bernoulli_vector","normal_vector","binary_vector","gen_i","gen_int","gen_f","gen_f_norm","gen_matrix","gen_matrix_no_bias","gen_matrixAny","gen_matrix_norm","gen_matrix_no_bias_norm","gen_matrix_gtz","gen_matrix_no_bias_gtz","normal_matrix","bernoulli_matrix","binary_matrix","gen_vector_st(a)","gen_vector_mt(a)","gen_vector_st(neg,pos)","gen_vector_mt(neg,pos)","gen_vector_norm_st","gen_vector_norm_mt","gen_vector_gtz_st","gen_vector_gtz_mt","bernoulli_vector_st","bernoulli_vector_mt","normal_vector_st","normal_vector_mt" };
struct OpD { int k; int n, r, c; bool bias, sic; double a, b, p; };
template<class G> struct is_mt { static constexpr bool v = G::is_multithreaded; };
template<class G> static constexpr bool hasNP = true; template<class R> static constexpr bool hasNP<rng::CStd<R>> = false;
static OpD draw(bool mt, bool np) {
	OpD o; do o.k = (int)sim::rnd(mt ? (int)NOPS : (int)GV_ST); while ((!np && (o.k == GVNP || o.k == NORM || o.k == MNORM)) || o.k == GFN); // CStd has no gen_vector(neg,pos); its declared output range is meaningful on MSVC only
	o.n = (int)(sim::chance(.3) ? sim::rng(1, 12) : sim::rng(1, 160)); o.r = (int)sim::rng(1, 12); o.c = (int)sim::rng(1, 12); o.bias = sim::chance(.5); o.sic = sim::chance(.5); o.a = .01 * (double)sim::rng(1, 500); o.b = .01 * (double)sim::rng(-400, 100); o.p = .01 * (double)sim::rng(5, 95); return o;
}
template<class R> struct Out { std::vector<R> v; std::vector<R> bias; double s; };
template<class G, class R> static Out<R> apply(G& g, const OpD& o, R fill) {
	Out<R> res; res.s = 0; const R a = (R)o.a, neg = (R)o.b, pos = (R)(o.b + o.a), p = (R)o.p; bool mtx = o.k >= MTX && o.k <= MBIN; sim::context("%s, %d elements, %d x %d, a=%g neg=%g p=%g", OpN[o.k], o.n, o.r, o.c, o.a, o.b, o.p); sim::probe(OpN[o.k]);
	if (mtx) {
		bool nb = o.k == MTXNB || o.k == MTXNNB || o.k == MTXGNB || o.k == MTXANY; bool bias = nb && o.bias; bool sic = false; if (o.k == MTXANY && o.sic) sic = true;
		math::smatrix_deform<R>* m = new math::smatrix_deform<R>(o.r, o.c, bias, sic); { sim::Oracle og; const size_t tot = (size_t)m->numel(); if (bias) { for (size_t i = 0; i < tot; ++i) m->data()[i] = fill; if (sic) { m->fill_bias_row(); } else for (int i = 0; i < o.r; ++i) m->data()[(size_t)o.r * o.c + i] = R(1); } else for (size_t i = 0; i < tot; ++i) m->data()[i] = fill; }
		switch (o.k) { case MTX: g.gen_matrix(*m, a); break; case MTXNB: g.gen_matrix_no_bias(*m, a); break; case MTXANY: g.gen_matrixAny(*m, a); break; case MTXN: g.gen_matrix_norm(*m); break; case MTXNNB: g.gen_matrix_no_bias_norm(*m); break; case MTXG: g.gen_matrix_gtz(*m, a); break; case MTXGNB: g.gen_matrix_no_bias_gtz(*m, a); break; case MNORM: g.normal_matrix(*m, neg, a); break; case MBERN: g.bernoulli_matrix(*m, p, a, neg); break; default: g.binary_matrix(*m, p); }
		sim::Oracle og; const size_t tot = (size_t)m->numel(); if (bias && sic) { const size_t ld = tot / (size_t)o.c; for (size_t i = 0; i < tot; ++i) if (i % ld == ld - 1) res.bias.push_back(m->data()[i]); else res.v.push_back(m->data()[i]); } else { const size_t n = (size_t)o.r * o.c; res.v.assign(m->data(), m->data() + n); if (bias) res.bias.assign(m->data() + n, m->data() + tot); } 
		delete m; return res;
	}
	switch (o.k) { case GI: res.s = (double)g.gen_i(o.n); return res; case GINT: res.s = (double)g.gen_int(); return res; case GF: res.s = (double)g.gen_f(a); return res; case GFN: return res; }
	if (o.k == GTZI) { int* q = (int*)malloc(sizeof(int) * o.n); { sim::Oracle og; for (int i = 0; i < o.n; ++i) q[i] = -7777 - (fill > 0); } g.gen_vector_gtz(q, (numel_cnt_t)o.n, (int)(o.a * 10 + 1)); { sim::Oracle og; for (int i = 0; i < o.n; ++i) res.v.push_back((R)q[i]); } free(q); return res; }
	R* q = (R*)malloc(sizeof(R) * o.n); { sim::Oracle og; for (int i = 0; i < o.n; ++i) q[i] = fill; }
	switch (o.k) {
	case GV: g.gen_vector(q, o.n, a); break; case GVN: g.gen_vector_norm(q, o.n); break; case GTZ: g.gen_vector_gtz(q, (numel_cnt_t)o.n, a); break; case BERN: g.bernoulli_vector(q, o.n, p, a, neg); break; case NORM: g.normal_vector(q, o.n, neg, a); break; case BIN: g.binary_vector(q, o.n, p); break;
	default:
		if constexpr (hasNP<G>) { if (o.k == GVNP) g.gen_vector(q, o.n, neg, pos); }
		if constexpr (is_mt<G>::v) switch (o.k) {
			case GV_ST: g.gen_vector_st(q, o.n, a); break; case GV_MT: g.gen_vector_mt(q, o.n, a); break; case GVNP_ST: g.gen_vector_st(q, o.n, neg, pos); break; case GVNP_MT: g.gen_vector_mt(q, o.n, neg, pos); break; case GVN_ST: g.gen_vector_norm_st(q, o.n); break; case GVN_MT: g.gen_vector_norm_mt(q, o.n); break;
			case GTZ_ST: g.gen_vector_gtz_st(q, (numel_cnt_t)o.n, a); break; case GTZ_MT: g.gen_vector_gtz_mt(q, (numel_cnt_t)o.n, a); break; case BERN_ST: g.bernoulli_vector_st(q, o.n, p, a, neg); break; case BERN_MT: g.bernoulli_vector_mt(q, o.n, p, a, neg); break; case NORM_ST: g.normal_vector_st(q, o.n, neg, a); break; case NORM_MT: g.normal_vector_mt(q, o.n, neg, a); break; }
	}
	{ sim::Oracle og; res.v.assign(q, q + o.n); } free(q); return res;
}
// every element filled, inside of the documented range, biases untouched
template<class R> static void ranges(const OpD& o, const Out<R>& r, R fill) {
	const double a = (double)(R)o.a, neg = (double)(R)o.b, pos = (double)(R)(o.b + o.a); double lo = -1e30, hi = 1e30; const double e = (double)std::numeric_limits<R>::epsilon() * 16; bool two = false; double v1 = 0, v2 = 0;
	switch (o.k) {
	case GV: case GV_ST: case GV_MT: case MTX: case MTXNB: case MTXANY: lo = -a; hi = a; break; case GVNP: case GVNP_ST: case GVNP_MT: lo = neg; hi = pos; break; case GVN: case GVN_ST: case GVN_MT: case MTXN: case MTXNNB: lo = 0; hi = 1; break;
	case GTZ: case GTZ_ST: case GTZ_MT: case MTXG: case MTXGNB: lo = 0; hi = a; break; case GTZI: lo = 0; hi = (int)(o.a * 10 + 1); break; case BERN: case BERN_ST: case BERN_MT: case MBERN: two = true; v1 = a; v2 = neg; break; case BIN: case MBIN: two = true; v1 = 1; v2 = 0; break;
	case GI: if (r.s < 0 || r.s >= o.n || r.s != std::floor(r.s)) sim::fail("rng-range", "gen_i(%d) gave %.17g", o.n, r.s); return; case GF: if (r.s < 0 || r.s > a * (1 + e)) sim::fail("rng-range", "gen_f(%g) gave %.17g", a, r.s); return;
	case GINT: return; default: break; }
	for (size_t i = 0; i < r.v.size(); ++i) { const R x = r.v[i]; if (!std::memcmp(&x, &fill, sizeof x) || (o.k == GTZI && x <= -7777)) sim::fail("rng-unfilled", "%s left element %zu of %zu untouched", OpN[o.k], i, r.v.size()); if (!std::isfinite(x)) sim::fail("rng-range", "%s gave a value that is not finite at %zu", OpN[o.k], i);
		if (two ? !(x == v1 || x == v2) : !(x >= lo - e * std::max(1., std::fabs(lo)) && x <= hi + e * std::max(1., std::fabs(hi)))) sim::fail("rng-range", "%s gave %.17g at element %zu, outside of [%g, %g]", OpN[o.k], (double)x, i, two ? v2 : lo, two ? v1 : hi); }
	for (R b : r.bias) if (b != R(1)) sim::fail("rng-bias", "%s changed a bias to %.9g", OpN[o.k], (double)b);
}
template<class R> static void same(const OpD& o, const Out<R>& x, const Out<R>& y, int i) {
	if (x.s != y.s) sim::fail("rng-repro", "operation %d, %s: %.17g the first time and %.17g the second time after the same seed", i, OpN[o.k], x.s, y.s);
	for (size_t j = 0; j < x.v.size(); ++j) if (std::memcmp(&x.v[j], &y.v[j], sizeof(R))) sim::fail("rng-repro", "operation %d, %s, element %zu of %zu: %.17g the first time and %.17g the second time after the same seed", i, OpN[o.k], j, x.v.size(), (double)x.v[j], (double)y.v[j]);
}
// ---- reproducibility ---------------------------------------------------------------------------------------
template<class R> struct Run { std::vector<OpD> ops; std::vector<char> keep; std::vector<Out<R>> first; };
template<class G, class R> static void pass(G& g, Run<R>& r, int which) {
	const R f = which ? (R)-1.2345e30 : (R)6.789e30;
	for (size_t i = 0; i < r.ops.size(); ++i) { if (!r.keep[i]) continue; auto o = apply<G, R>(g, r.ops[i], f); sim::Oracle og; ranges(r.ops[i], o, f); for (auto& x : o.v) sim::note_bytes(&x, sizeof x); if (!which) r.first[i] = o; else same(r.ops[i], r.first[i], o, (int)i); o = {}; }
}
template<class R> static Run<R>* plan(bool mt, bool np) { const int n = (int)sim::rng(1, 6); Run<R>* r; { sim::Oracle g; r = new Run<R>; } for (int i = 0; i < n; ++i) { OpD o = draw(mt, np); bool k = sim::keep_op(); sim::Oracle g; r->ops.push_back(o); r->keep.push_back(k); r->first.emplace_back(); } return r; }
template<class T, class R, class B> static void s_repro() {
	global_denormalized_floats_mode(); typedef rng::AFRand_mt<R, B, T> G; auto* r = plan<R>(true, true); const int mode = (int)sim::rnd(5); const int s = (int)sim::rnd(100000) + 1, junk = (int)sim::rnd(40);
	T* t = new T; G* g = nullptr;
	switch (mode) {
	case 0: g = new G(*t, s); pass(*g, *r, 0); delete g; g = new G(*t, s); pass(*g, *r, 1); break;                                        // two objects with the same seed
	case 1: { g = new G(*t, s); pass(*g, *r, 0); T* t2 = new T; G* g2 = new G; if (!g2->init_ithreads(*t2, s)) sim::fail("rng-init", "init_ithreads failed"); pass(*g2, *r, 1); delete g2; delete t2; break; } // and two pools
	case 2: { g = new G(*t, 5); OpD j; { j = draw(true, true); j.n = junk + 1; } g->seed(s); pass(*g, *r, 0); apply<G, R>(*g, j, (R)0); g->seed(s); pass(*g, *r, 1); break; }     // seeded again after other use
	case 3: { g = new G(*t, 5); OpD j = draw(true, true); g->seed(s); pass(*g, *r, 0); apply<G, R>(*g, j, (R)0); g->reseed(); pass(*g, *r, 1); break; }
	default: { g = new G(*t, 5); g->seed64((uint64_t)s * 7777777777ull); pass(*g, *r, 0); g->seed64((uint64_t)s * 7777777777ull); pass(*g, *r, 1); } }
	delete g; delete t; { sim::Oracle o; delete r; }
}
template<class G, class R> static void s_single() {
	auto* r = plan<R>(false, hasNP<G>); const int s = (int)sim::rnd(100000) + 1; const bool two = sim::chance(.5); G* g = new G((typename G::seed_t)s); g->seed(s); pass(*g, *r, 0); if (two) { delete g; g = new G((typename G::seed_t)3); } g->seed(s); pass(*g, *r, 1); delete g; { sim::Oracle o; delete r; }
}
// parameters of the normal distribution: same seed, other mean and deviation = the affine image
template<class G, class R> static void affine(G& g, bool matrix) {
	const int n = (int)sim::rng(1, 40), s = (int)sim::rnd(100000) + 1; const R m = (R)(.01 * (double)sim::rng(-300, 300)), st = (R)(.01 * (double)sim::rng(5, 400)); R* p = (R*)malloc(sizeof(R) * n); R* q = (R*)malloc(sizeof(R) * n); sim::context("normal_vector, %d elements, mean %g deviation %g", n, (double)m, (double)st);
	(void)matrix; g.seed(s); g.normal_vector(p, n); g.seed(s); g.normal_vector(q, n, m, st); { sim::Oracle o; sim::probe("affine"); for (int i = 0; i < n; ++i) { double w = (double)m + (double)st * p[i]; if (std::fabs(w - q[i]) > 1e-4 * std::max(1., std::fabs(w))) sim::fail("rng-normal", "element %d of N(%g,%g) is %.9g, but %.9g for N(0,1) after the same seed", i, (double)m, (double)st, (double)q[i], (double)p[i]); } } free(p); free(q);
}
template<class T, class R, class B> static void s_affine_mt() { T* t = new T; typedef rng::AFRand_mt<R, B, T> G; G* g = new G(*t, 3); for (int i = 0; i < 2; ++i) affine<G, R>(*g, false); delete g; delete t; }
template<class G, class R> static void s_affine() { G* g = new G((typename G::seed_t)3); affine<G, R>(*g, false); delete g; }
// ---- no number twice ---------------------------------------------------------------------------------------
struct Uniq { std::set<uint64_t> seen; };
static void take(Uniq* u, const char* what, const double* p, int n, double span, double ofs) {
	sim::Oracle og; for (int i = 0; i < n; ++i) { double raw = (p[i] - ofs) / span * 137438953472.0; uint64_t id = (uint64_t)raw; if (raw < 0 || raw != std::floor(raw) || !(id & 0xffffff) || (id >> 24) == 0 || (id >> 24) > CountRng::streams->size()) sim::fail("rng-foreign", "%s: element %d of %d is %.17g, which no generator produced", what, i, n, p[i]); if (CountRng::bg->count((uint32_t)(id >> 24))) sim::probe("number_from_background"); if (!u->seen.insert(id).second) sim::fail("rng-twice", "%s: element %d of %d repeats number %u of stream %u", what, i, n, (unsigned)(id & 0xffffff), (unsigned)(id >> 24)); }
}
template<class G> static void uniq_ops(G& g, Uniq* u, int k) {
	for (int i = 0; i < k; ++i) {
		int what = (int)sim::rnd(8), n = (int)(sim::chance(.5) ? sim::rng(1, 12) : sim::rng(1, 140)), e = (int)sim::rng(-1, 3), s = (int)sim::rnd(1000) + 1; bool keep = sim::keep_op(); if (!keep) continue; double a = std::ldexp(1., e); double* p = (double*)malloc(sizeof(double) * n); { sim::Oracle o; for (int j = 0; j < n; ++j) p[j] = -5e9; }
		const char* nm = ""; sim::context("operation %d kind %d, %d elements", i, what, n);
		switch (what) { case 0: g.gen_vector_norm(p, n); take(u, nm = "gen_vector_norm", p, n, 1, 0); break; case 1: g.gen_vector(p, n, a); take(u, nm = "gen_vector(a)", p, n, 2 * a, -a); break; case 2: g.gen_vector(p, n, -a, a * 3); take(u, nm = "gen_vector(neg,pos)", p, n, a * 4, -a); break; case 3: g.gen_vector_gtz(p, (numel_cnt_t)n, a); take(u, nm = "gen_vector_gtz", p, n, a, 0); break;
		case 4: g.normal_vector(p, n, .5, 2.); { sim::Oracle o; for (int j = 0; j < n; ++j) if (!(std::fabs(p[j]) < 1e3)) sim::fail("rng-unfilled", "normal_vector left element %d of %d at %.9g", j, n, p[j]); } nm = "normal_vector"; break;
		case 5: g.bernoulli_vector(p, n, .5, 2., 3.); { sim::Oracle o; for (int j = 0; j < n; ++j) if (p[j] != 2 && p[j] != 3) sim::fail("rng-unfilled", "bernoulli_vector left element %d of %d at %.9g", j, n, p[j]); } nm = "bernoulli_vector"; break;
		case 6: { double f = g.template gen_f_norm<double>(); take(u, nm = "gen_f_norm", &f, 1, 1, 0); break; } default: { { sim::Oracle o; ++CountRng::epoch; } g.seed(s); nm = "seed"; } }
		free(p); sim::probe(nm);
	}
}
static Uniq* ubegin() { sim::Oracle g; if (!CountRng::streams) CountRng::streams = new std::map<std::string, uint32_t>; if (!CountRng::bg) CountRng::bg = new std::set<uint32_t>; CountRng::bg->clear(); CountRng::streams->clear(); CountRng::epoch = 0; CountRng::base = 1 << 30; return new Uniq; }
static void s_uniq_mt() { global_denormalized_floats_mode(); Uniq* u = ubegin(); ThrD* t = new ThrD; typedef rng::AFRand_mt<double, CountRng, ThrD> G; G* g = new G(*t, (int)sim::rnd(1000) + 1); uniq_ops(*g, u, (int)sim::rng(2, 10)); delete g; delete t; sim::Oracle o; delete u; }
template<bool faults> static void as_run() {
	global_denormalized_floats_mode(); Uniq* u = ubegin(); ThrD* t = new ThrD; typedef rng::AFRand_as<double, CountRng, ThrD> G; const int s = (int)sim::rnd(1000) + 1; CountRng::base = s; G* g; if (sim::chance(.7)) g = new G(*t, s); else { g = new G; if (!g->init_ithreads(*t, s)) sim::fail("rng-init", "init_ithreads failed"); }
	const int rounds = (int)sim::rng(1, 3);
	for (int r = 0; r < rounds; ++r) {
		const int a = (int)(sim::chance(.3) ? 0 : sim::rng(1, 200)), b = (int)(sim::chance(.3) ? 0 : sim::rng(1, 200)); if (a) g->preinit_additive_norm(a); if (b) g->preinit_additive_normal_distr(b); sim::context("init_rng with %d uniform and %d normal numbers", a, b);
		if (sim::chance(.15)) uniq_ops(*g, u, 1);
		if (faults) sim::alloc_faults(true); const auto f0 = sim::alloc_failures(); const bool ok = g->init_rng(); const bool failed = sim::alloc_failures() != f0; if (faults) sim::alloc_faults(false);
		sim::note(ok); if (!ok && !failed) sim::fail("rng-init", "init_rng failed although nothing went wrong"); if (failed) sim::probe("init_failed");
		if (ok) { uniq_ops(*g, u, (int)sim::rng(1, 6)); if (sim::chance(.5)) { sim::spend(1000000); sim::yield(); uniq_ops(*g, u, 2); } }
		if (r + 1 < rounds || sim::chance(.5)) g->deinit_rng();
	}
	sim::context("destruction"); delete g; delete t; sim::Oracle o; delete u;
}
static void tune_af(sim::Knobs& k) { k.p_allocfail = 0.4; k.max_allocfail = 2; }
typedef rng::AFRand<double, AFog::CRandomMersenne> G1; typedef rng::AFRand<float, AFog::CRandomSFMT1> G2; typedef rng::CStd<double> G3;
#define ALL(P) SIM_SCENARIO(P, repro_double, (s_repro<ThrD, double, AFog::CRandomSFMT0>), nullptr, 2) SIM_SCENARIO(P, repro_float, (s_repro<ThrF, float, AFog::CRandomMersenne>), nullptr, 1) SIM_SCENARIO(P, uniq_mt, s_uniq_mt, nullptr, 1) SIM_SCENARIO(P, async, as_run<false>, nullptr, 2)
ALL(P07) ALL(P04)
SIM_SCENARIO(P07, single_double, (s_single<G1, double>), nullptr, 1) SIM_SCENARIO(P07, single_float, (s_single<G2, float>), nullptr, 1) SIM_SCENARIO(P07, single_cstd, (s_single<G3, double>), nullptr, 1)
SIM_SCENARIO(P07, affine_mt, (s_affine_mt<ThrD, double, AFog::CRandomSFMT0>), nullptr, 1) SIM_SCENARIO(P07, affine_single, (s_affine<G1, double>), nullptr, 1)
SIM_SCENARIO(P07, async_allocfail, as_run<true>, tune_af, 1)
