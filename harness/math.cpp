// Mathematics: P06 all execution variants of an operation agree, P04 race freedom and memory bounds
#include <map>
#include <set>
#include <tuple>
#include <functional>
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
#include <nntl/nntl.h>
namespace sim { std::ostream nullout(nullptr); }
using namespace nntl;
typedef threads::Workers<double, numel_cnt_t, threads::win_sync_primitives> ThrD; typedef math::MathN<double, ThrD, imem::imemmgr> MD;
typedef threads::Workers<float, numel_cnt_t, threads::std_sync_primitives> ThrF; typedef math::MathN<float, ThrF, imem::imemmgr> MF;

enum { MAXM = 5 };
template<class M> struct Ctx {
	typedef typename M::real_t R; typedef math::smatrix_deform<R> mtx;
	M* m; int r, c; // shape of the operation
	mtx* x[MAXM]; std::vector<vec_len_t>* ix; vec_len_t* idx; // working copies in the simulated heap
	R k, k2; int i0, i1; double ret; R out[4]; int nout;
};
struct Spec { char kind; char shape; bool bias; bool bir; };
template<class M> struct Var { const char* name; void (*fn)(Ctx<M>&); };
enum { EW = 0, RED = 1, EXACT = 2 };
enum { F_CW = 1, F_COLS2 = 2, F_ROWS2 = 4, F_IDX = 8 }; // needs more columns than a thread takes / at least 2 columns
template<class M> struct Op { const char* name; const char* spec; int tol; int flags; void (*setup)(Ctx<M>&); numel_cnt_t(*mem)(Ctx<M>&); std::vector<Var<M>> v; };
// master data lives outside of the simulated heap
template<class R> struct Master { int rows, cols; bool bias, bir; std::vector<R> d; size_t cmp; };
static bool Values = true;

template<class R> static R val(char kind) {
	double u = (double)(sim::rnd() >> 11) * (1.0 / 9007199254740992.0);
	switch (kind) {
	case 'u': return (R)u; case 'b': return (R)(u < .5 ? 0 : 1); case 'z': return (R)(u < .3 ? 0 : (u - .65) * 4); case 'p': return (R)(u + .05); case 'e': return (R)(u * .98 + .01);
	case 'q': return (R)(int)(u * 7); // few distinct values
	default: return (R)((u - .5) * 4);
	}
}
template<class R> static Master<R> mk(const Spec& s, int r, int c, const std::vector<vec_len_t>& ix, int i0, int i1, int thr) {
	int rr = r, cc = c;
	switch (s.shape) { case 'v': cc = 1; break; case 'V': cc = thr; break; case 'w': rr = c; cc = 1; break; case 's': rr = cc = c; break; case 'S': rr = c; cc = r; break; case 'i': rr = (int)ix.size(); break; case 'l': rr = r + i0 + i1; break; case 'x': rr = i0; cc = i1; break; case 'c': cc = (int)ix.size(); break; case '1': rr = r; cc = 1; break; case 't': rr = r * i0; break; case 'T': cc = c * i0; break; case 'Y': cc = i0; break; case 'W': rr = i0; cc = c + 1; break; case 'P': rr = i0; cc = c; break; case 'Q': rr = c; cc = i0; break; default: break; }
	Master<R> m; m.bias = s.bias; m.bir = s.bir; if (s.bir) { std::swap(rr, cc); m.rows = rr; m.cols = cc; const int tr = rr + (s.bias ? 1 : 0); m.d.resize((size_t)tr * cc); for (int q = 0; q < cc; ++q) for (int i = 0; i < tr; ++i) m.d[(size_t)q * tr + i] = i < rr ? val<R>(s.kind) : R(1); m.cmp = m.d.size(); return m; } m.rows = rr; m.cols = cc; m.d.resize((size_t)rr * (cc + (s.bias ? 1 : 0))); size_t n = (size_t)rr * cc; for (size_t i = 0; i < n; ++i) m.d[i] = val<R>(s.kind); for (size_t i = n; i < m.d.size(); ++i) m.d[i] = 1; m.cmp = s.shape == 'V' ? rr : m.d.size(); return m;
}
template<class R> static bool close(R a, R b, int tol, size_t n = 1) {
	if (!memcmp(&a, &b, sizeof a)) return true; if (std::isnan(a) && std::isnan(b)) return true; if (a == b) return true; if (tol == EXACT) return false; if (std::isinf(a) || std::isinf(b)) return false;
	const double e = sizeof(R) == 4 ? (tol == RED ? 3e-4 : 3e-5) : (tol == RED ? 1e-11 : 1e-12); double s = std::max(1.0, std::max(std::fabs((double)a), std::fabs((double)b))); return std::fabs((double)a - (double)b) <= e * s + (tol == RED ? (double)std::numeric_limits<R>::epsilon() * 64 * (double)n : 0.);
}
template<class R> struct Snap { std::vector<std::vector<R>> m; double ret; std::vector<R> out; std::vector<vec_len_t> idx; };
template<class M> static void run_op(M& m, const Op<M>& op, int opno) {
	typedef typename M::real_t R; Ctx<M> c; c.m = &m; c.nout = 0; c.ret = 0; c.i0 = c.i1 = 0;
	// shape
	int r, cc; switch (sim::rnd(5)) { case 0: r = (int)sim::rng(1, 6); cc = (int)sim::rng(1, 6); break; case 1: r = (int)sim::rng(1, 90); cc = (int)sim::rng(1, 4); break; case 2: r = (int)sim::rng(1, 4); cc = (int)sim::rng(1, 40); break; default: r = (int)sim::rng(1, 24); cc = (int)sim::rng(1, 24); }
	if (op.flags & F_CW) cc += 5; if ((op.flags & F_COLS2) && cc < 2) cc = 2; if ((op.flags & F_ROWS2) && r < 2) r = 2; c.r = r; c.c = cc;
	c.k = (R)(0.05 + (double)sim::rnd(1000) * 9e-4); c.k2 = (R)(0.05 + (double)sim::rnd(1000) * 9e-4); std::vector<vec_len_t> ix0; c.ix = &ix0; std::vector<Master<R>> ms; { sim::Oracle g; }
	if (op.setup) { sim::Oracle g; op.setup(c); } r = c.r; cc = c.c;
	{ sim::Oracle g; const char* p = op.spec; while (*p) { Spec s; s.kind = *p++; s.shape = '.'; s.bias = s.bir = false; while (*p && *p != ' ') { if (*p == '+') s.bias = true; else if (*p == '?') s.bias = sim::chance(.5); else if (*p == '!') s.bir = true; else if (*p == '=') s.bir = ms.back().bir; else if (*p == '^') s.bir = !ms.back().bir; else if (*p == '~') s.bir = sim::chance(.5); else s.shape = *p; ++p; } if (*p) ++p; ms.push_back(mk<R>(s, r, cc, ix0, c.i0, c.i1, (int)m.ithreads().cur_workers_count())); } 
		if (op.setup == nullptr) {} }
	std::vector<int> order; { sim::Oracle g; const int nv = (int)op.v.size(); order.push_back(0); int extra = (int)sim::rng(1, nv); for (int i = 0; i < extra; ++i) order.push_back((int)sim::rng(0, nv - 1)); if (sim::chance(.3)) order.push_back(order.back()); }
	const bool keep = sim::keep_op();
	if (keep) {
		Snap<R>* first = nullptr; Snap<R>* prev = nullptr; int prevv = -1;
		for (size_t o = 0; o < order.size(); ++o) {
			const auto& v = op.v[order[o]]; sim::context("operation %d: %s, %d x %d, %d threads, variant %s", opno, op.name, r, cc, (int)m.ithreads().cur_workers_count(), v.name);
			const numel_cnt_t need = op.mem ? op.mem(c) : 0; if (need) { m.preinit(need); if (!m.init()) sim::fail("memory", "temporary memory is not available"); }
			for (int i = 0; i < MAXM; ++i) c.x[i] = nullptr;
			for (size_t i = 0; i < ms.size(); ++i) { c.x[i] = new typename Ctx<M>::mtx(ms[i].rows, ms[i].cols, ms[i].bias, ms[i].bir); memcpy(c.x[i]->data(), ms[i].d.data(), ms[i].d.size() * sizeof(R)); }
			c.idx = (vec_len_t*)malloc(sizeof(vec_len_t) * (ix0.size() ? ix0.size() : 1)); if (ix0.size()) memcpy(c.idx, ix0.data(), ix0.size() * sizeof(vec_len_t));
			c.ret = 0; for (auto& z : c.out) z = 0;
			v.fn(c);
			if (need) m.deinit();
			Snap<R>* s; { sim::Oracle g; s = new Snap<R>; s->ret = c.ret; s->out.assign(c.out, c.out + 4); s->idx.assign(c.idx, c.idx + ix0.size()); for (size_t i = 0; i < ms.size(); ++i) s->m.emplace_back(c.x[i]->data(), c.x[i]->data() + ms[i].cmp);
				for (auto& q : s->m) sim::note_bytes(q.data(), q.size() * sizeof(R)); sim::note_bytes(&s->ret, sizeof s->ret); }
			for (size_t i = 0; i < ms.size(); ++i) delete c.x[i]; free(c.idx);
			sim::Oracle g; sim::probe(op.name);
			if (Values && first) {
				for (size_t i = 0; i < s->m.size(); ++i) for (size_t j = 0; j < s->m[i].size(); ++j) if (!close(first->m[i][j], s->m[i][j], op.tol, (size_t)r * cc)) sim::fail("variant", "%s and %s differ in matrix %zu at row %zu column %zu: %.9g and %.9g", op.v[0].name, v.name, i, j % ms[i].rows, j / ms[i].rows, (double)first->m[i][j], (double)s->m[i][j]);
				if (!close((R)first->ret, (R)s->ret, op.tol == EW ? RED : op.tol, (size_t)r * cc)) sim::fail("variant", "%s and %s return %.9g and %.9g", op.v[0].name, v.name, first->ret, s->ret);
				for (int i = 0; i < 4; ++i) if (!close(first->out[i], s->out[i], EW)) sim::fail("variant", "%s and %s leave parameter %d at %.9g and %.9g", op.v[0].name, v.name, i, (double)first->out[i], (double)s->out[i]);
				for (size_t i = 0; i < s->idx.size(); ++i) if (s->idx[i] != first->idx[i] && !((op.flags & F_IDX) && s->idx[i] < (vec_len_t)ms[0].cols && ms[0].d[(size_t)s->idx[i] * ms[0].rows + i] == ms[0].d[(size_t)first->idx[i] * ms[0].rows + i])) sim::fail("variant", "%s and %s give index %d and %d at row %zu", op.v[0].name, v.name, (int)first->idx[i], (int)s->idx[i], i);
				if (prevv == order[o]) for (size_t i = 0; i < s->m.size(); ++i) if (memcmp(s->m[i].data(), prev->m[i].data(), s->m[i].size() * sizeof(R)) || memcmp(&s->ret, &prev->ret, sizeof s->ret)) sim::fail("variant-determinism", "%s gave different bits when repeated", v.name);
			}
			if (!first) first = s; else { if (prev && prev != first) delete prev; } if (prev != s && s != first) prev = s; else if (s == first) prev = s; prevv = order[o];
		}
		sim::Oracle g; if (prev && prev != first) delete prev; delete first;
	}
	sim::Oracle g; ms = {}; order = {}; ix0 = {};
}
// ---- table of operations ---------------------------------------------------------------------------------
#define ARGS auto& m = *c.m; typedef typename Ctx<M>::R R; auto* const* x = c.x; auto& A = *x[0]; auto& B = *x[1]; auto& C = *x[2]; auto& D = *x[3]; const R k = c.k, k2 = c.k2; auto* idx = c.idx; const int i0 = c.i0, i1 = c.i1; (void)k; (void)k2; (void)A; (void)B; (void)C; (void)D; (void)idx; (void)i0; (void)i1;
#define V(...) Var<M>{ #__VA_ARGS__, [](Ctx<M>& c) { ARGS __VA_ARGS__; } }
#define VR(...) Var<M>{ #__VA_ARGS__, [](Ctx<M>& c) { ARGS c.ret = (double)(__VA_ARGS__); } }
#define MEM(...) [](Ctx<M>& c) -> numel_cnt_t { auto& m = *c.m; typedef typename Ctx<M>::R R; const math::smatrix_td::mtx_size_t sz((vec_len_t)c.r, (vec_len_t)c.c); (void)sz; return __VA_ARGS__; }
#define EW3(f, spec, ...) t.push_back({ #f, spec, EW, 0, nullptr, nullptr, { V(m.f##_st(__VA_ARGS__)), V(m.f##_mt(__VA_ARGS__)), V(m.f(__VA_ARGS__)) } });
#define EW3S(f, spec, su, ...) t.push_back({ #f, spec, EW, 0, su, nullptr, { V(m.f##_st(__VA_ARGS__)), V(m.f##_mt(__VA_ARGS__)), V(m.f(__VA_ARGS__)) } });
#define RD3(f, spec, ...) t.push_back({ #f, spec, RED, 0, nullptr, nullptr, { VR(m.f##_st(__VA_ARGS__)), VR(m.f##_mt(__VA_ARGS__)), VR(m.f(__VA_ARGS__)) } });
template<class C> static void su_perm(C& c) { c.ix->clear(); int n = (int)sim::rng(1, c.r); for (int i = 0; i < n; ++i) c.ix->push_back((vec_len_t)sim::rnd(c.r)); }       // row indexes, at most as many as rows
template<class C> static void su_rows(C& c) { c.ix->assign(c.r, 0); }
template<class C> static void su_cols(C& c) { c.ix->clear(); int n = (int)sim::rng(1, 30); for (int i = 0; i < n; ++i) c.ix->push_back((vec_len_t)sim::rnd(c.c)); }
template<class C> static void su_spec(C& c) { c.ix->clear(); c.i0 = c.r; c.i1 = 0; for (int i = 0; i < c.c; ++i) { c.ix->push_back((vec_len_t)sim::rng(1, 4)); c.i1 += c.ix->back(); } }
template<class C> static void su_off(C& c) { c.i0 = (int)sim::rnd(6); c.i1 = (int)sim::rnd(6); }
template<class C> static void su_n(C& c) { c.i0 = (int)sim::rng(1, 12); }
template<class C> static void su_tile(C& c) { c.i0 = (int)sim::rng(2, 5); }
template<class C> static void su_mask(C& c) { c.ix->clear(); do { c.ix->clear(); for (int i = 0; i < c.r; ++i) if (sim::chance(.6)) c.ix->push_back(i); } while (c.ix->empty()); c.i0 = (int)c.ix->size(); c.i1 = c.c; }
template<class R> struct Sz : math::smatrix<R> { Sz(int r, int c) : math::smatrix<R>((R*)(uintptr_t)64, (vec_len_t)r, (vec_len_t)c) {} };
template<class T> static void gr(T& C) { for (numel_cnt_t i = 0; i < C.numel(); ++i) C.data()[i] *= typename T::value_type(.1); }
template<class M> struct WlQ { typedef typename M::real_t real_t; typedef activation::Linear_Loss_quadWeighted_FP<real_t> dummy; };
template<class M> static void fill_mask(Ctx<M>& c, math::smatrix_deform<typename M::real_t>& mask) { for (int i = 0; i < c.r; ++i) mask.data()[i] = 0; for (int j = 0; j < c.i0; ++j) mask.data()[c.idx[j]] = 1; }
#include "mathdef.h"
template<class M> static std::vector<Op<M>> table() {
	typedef Ctx<M> X; std::vector<Op<M>> t;
	// element-wise
	EW3(ewBinarize_ip, "u", A, k)
	t.push_back({ "ewBinarize", "u u", EW, 0, nullptr, nullptr, { V(m.ewBinarize_st(A, B, k)), V(m.ewBinarize_mt(A, B, k)), V(m.ewBinarize(A, B, k)) } });
	EW3S(ewBinarizeBatch, "ul u", su_off<X>, A, (vec_len_t)i0, B, k)
	EW3(evClamp, "n", A, -k, k2)
	EW3(make_dropout, "n+ u", A, k, B) EW3(apply_dropout_mask, "n? u", A, k, B) EW3(make_alphaDropout, "n+ u", A, k, k2, R(.3), R(-.7), B)
	t.push_back({ "apply_ILR", "z z p", EW, 0, nullptr, MEM(m.template apply_ILR_needTempMem<R>(sz)), { V(m.apply_ILR_st_naive(A, B, C, R(.9), R(1.2), R(.2), R(.8))), V(m.apply_ILR_mt_naive(A, B, C, R(.9), R(1.2), R(.2), R(.8))), V(m.apply_ILR_st_vec(A, B, C, R(.9), R(1.2), R(.2), R(.8))), V(m.apply_ILR_mt_vec(A, B, C, R(.9), R(1.2), R(.2), R(.8))), V(m.apply_ILR(A, B, C, R(.9), R(1.2), R(.2), R(.8))) } });
	EW3(apply_momentum, "n n", A, k, B)
	EW3(evMulCAddC_ip, "n?", A, k, k2, true) EW3(evMulC_ip, "n?", A, k, true) EW3(evAddC_ip, "n?", A, k, true)
	t.push_back({ "evMulC_ip_v", "n", EW, 0, nullptr, nullptr, { V(m.evMulC_ip_st(A.data(), A.numel(), k)), V(m.evMulC_ip_mt(A.data(), A.numel(), k)), V(m.evMulC_ip(A.data(), A.numel(), k)) } });
	t.push_back({ "evMulC_ip_nb", "n?", EW, 0, nullptr, nullptr, { V(m.evMulC_ip_st(A, k, true)), V(m.evMulC_ip_nb(A, k)) } });
	t.push_back({ "evAddC_ip_nb", "n?", EW, 0, nullptr, nullptr, { V(m.evAddC_ip_st(A, k, true)), V(m.evAddC_ip_nb(A, k)) } });
	t.push_back({ "evMulCAddC_ip_nb", "n?", EW, 0, nullptr, nullptr, { V(m.evMulCAddC_ip_st(A, k, k2, true)), V(m.evMulCAddC_ip_nb(A, k, k2)) } });
	EW3(evSubMtxMulC_ip_nb, "n? n", A, B, k) EW3(evMul_ip, "n n", A, B) EW3(evMul_ip_Anb, "n? n", A, B)
	t.push_back({ "vAdd_ip", "n n", EW, 0, nullptr, nullptr, { V(m.vAdd_ip_st(A.data(), B.data(), A.numel())), V(m.vAdd_ip_mt(A.data(), B.data(), A.numel())), V(m.vAdd_ip(A.data(), B.data(), A.numel())) } });
	EW3(evAdd_ip, "n n", A, B) EW3(evAdd_Anb_ip, "n? n", A, B) EW3(evAddScaled_ip, "n n", A, k, B) EW3(evNZAddScaled_ip, "z n", A, k, B) EW3(evAddScaledSign_ip, "n z", A, k, B) EW3(evNZAddScaledSign_ip, "z z", A, k, B) EW3(evSign, "n z", A, B) EW3(evOneCompl, "b? n?", A, B)
	t.push_back({ "evSub_ip", "n n", EW, 0, nullptr, nullptr, { V(m.evSub_ip_st_naive(A, B)), V(m.evSub_ip_mt_naive(A, B)), V(m.evSub_ip(A, B)) } });
	t.push_back({ "evSub", "n n n", EW, 0, nullptr, nullptr, { V(m.evSub_st_naive(A, B, C)), V(m.evSub_mt_naive(A, B, C)), V(m.evSub(A, B, C)) } });
	EW3(evMulC_ip_Sub_ip, "n n", A, k, B) EW3(evSquare, "n n", A, B) EW3(evAbs, "n n", A, B)
	// activations and derivatives
	EW3(sigm, "n?", A) EW3(dsigm, "u", A) EW3(relu, "n?", A) EW3(drelu, "z", A) EW3(leakyrelu, "n?", A, k) EW3(dleakyrelu, "z", A, k) EW3(elu, "n?", A, k) EW3(delu, "n", A, k) EW3(elu_unitalpha, "n?", A) EW3(delu_unitalpha, "n", A)
	EW3(elogu, "n?", A, k, k2 + R(1.1)) EW3(delogu, "n", A, k, k2 + R(1.1)) EW3(elogu_ua, "n?", A, k2 + R(1.1)) EW3(delogu_ua, "n", A, k2 + R(1.1)) EW3(elogu_nb, "n?", A, k) EW3(delogu_nb, "n", A, k) EW3(elogu_ua_nb, "n?", A) EW3(delogu_ua_nb, "n", A)
	EW3(loglogu, "n?", A, k + R(1.1), k2 + R(1.1)) EW3(dloglogu, "n", A, k + R(1.1), k2 + R(1.1)) EW3(loglogu_nbn, "n?", A, k2 + R(1.1)) EW3(dloglogu_nbn, "n", A, k2 + R(1.1)) EW3(loglogu_nbp, "n?", A, k2 + R(1.1)) EW3(dloglogu_nbp, "n", A, k2 + R(1.1)) EW3(loglogu_nbn_nbp, "n?", A) EW3(dloglogu_nbn_nbp, "n", A)
	EW3(logu, "n?", A, k2 + R(1.1)) EW3(dlogu, "n", A, k2 + R(1.1)) EW3(logu_nb, "n?", A) EW3(dlogu_nb, "n", A) EW3(softsign, "n?", A, k, k2) EW3(softsign_uc, "n?", A, k) EW3(dsoftsign, "u", A, k, R(1.5)) EW3(dsoftsign_ua_uc, "u", A) EW3(softsigm, "n?", A, k) EW3(dsoftsigm, "e", A, k)
	EW3(selu, "n?", A, R(1.7), R(1.05)) EW3(dselu, "n", A, R(1.7), R(1.05)) EW3(step, "n?", A)
	EW3(dIdentityXEntropyLoss_dZ, "e e", A, B) EW3(dSigmQuadLoss_dZ, "u e", A, B) EW3(dSoftSigmQuadLoss_dZ, "u e", A, B, k) EW3(dSoftSigmXEntropyLoss_dZ, "b e", A, B, k)
	t.push_back({ "dLoss_dZ", "n n", EW, 0, nullptr, nullptr, { V(m.template dLoss_dZ_st<activation::Linear_Loss_quadWeighted_FP<R>>(A, B)), V(m.template dLoss_dZ_mt<activation::Linear_Loss_quadWeighted_FP<R>>(A, B)), V(m.template dLoss_dZ<activation::Linear_Loss_quadWeighted_FP<R>>(A, B)) } });
	// reductions
	RD3(vSumAbs, "n", A) RD3(ewSumProd, "n n", A, B) RD3(ewSumSquares, "n", A)
	t.push_back({ "ewSumSquares_ns", "n", RED, 0, nullptr, nullptr, { VR(m.ewSumSquares_st_ns(A)), VR(m.ewSumSquares_mt_ns(A)), VR(m.ewSumSquares_ns(A)), VR(m.ewSumSquares_st(A)), VR(m.ewSumSquares_ns(A.data(), A.numel())), VR(m.ewSumSquares_mt_ns(A.data(), A.numel())), VR(m.ewSumSquares_mt(A.data(), A.numel())), VR(m.ewSumSquares(A.data(), A.numel())), VR(m.ewSumSquares_st(A.data(), A.numel())), VR(m.ewSumSquares_st_ns(A.data(), A.numel())) } });
	t.push_back({ "ewSumSquaresTriang_lower", "ns", RED, F_COLS2, nullptr, nullptr, { VR(m.template ewSumSquaresTriang_st<true, false>(A)), VR(m.template ewSumSquaresTriang_mt<true, false>(A)), VR(m.template ewSumSquaresTriang<true, false>(A)), VR(m.template ewSumSquaresTriang_mt<true, true>(A)), VR(m.template ewSumSquaresTriang<true, true>(A)), VR(m.template ewSumSquaresTriang_st<true, true>(A)) } });
	t.push_back({ "ewSumSquaresTriang_upper", "ns", RED, F_COLS2, nullptr, nullptr, { VR(m.template ewSumSquaresTriang_st<false, false>(A)), VR(m.template ewSumSquaresTriang_mt<false, false>(A)), VR(m.template ewSumSquaresTriang<false, false>(A)), VR(m.template ewSumSquaresTriang_mt<false, true>(A)), VR(m.template ewSumSquaresTriang<false, true>(A)), VR(m.template ewSumSquaresTriang_st<false, true>(A)) } });
	t.push_back({ "loss_quadratic", "n n", RED, 0, nullptr, nullptr, { VR(m.loss_quadratic_st_naive(A, B)), VR(m.loss_quadratic_mt_naive(A, B)), VR(m.loss_quadratic(A, B)), VR(m.loss_quadratic_st_naive_ns(A, B)), VR(m.loss_quadratic_mt_naive_ns(A, B)), VR(m.loss_quadratic_ns(A, B)) } });
	t.push_back({ "loss_xentropy", "e b", RED, 0, nullptr, nullptr, { VR(m.loss_xentropy_st(A, B)), VR(m.loss_xentropy_mt(A, B)), VR(m.loss_xentropy(A, B)), VR(m.loss_xentropy_ns_st(A, B)), VR(m.loss_xentropy_ns_mt(A, B)), VR(m.loss_xentropy_ns(A, B)) } });
	RD3(loss_softmax_xentropy, "e b", A, B)
	t.push_back({ "compute_loss", "n n", RED, 0, nullptr, nullptr, { VR(m.template compute_loss_st<activation::Linear_Loss_quadWeighted_FP<R>>(A, B)), VR(m.template compute_loss_mt<activation::Linear_Loss_quadWeighted_FP<R>>(A, B)), VR(m.template compute_loss<activation::Linear_Loss_quadWeighted_FP<R>>(A, B)) } });
	t.push_back({ "vCountSame", "q q", EXACT, 0, nullptr, nullptr, { VR(m.vCountSame_st_naive(A, B)), VR(m.vCountSame_mt_naive(A, B)), VR(m.vCountSame(A, B)) } });
	t.push_back({ "vCountSame_ofs", "ql q", EXACT, 0, su_off<X>, nullptr, { VR(m.vCountSame_st_naive(A, B, (vec_len_t)i0)), VR(m.vCountSame_mt_naive(A, B, (vec_len_t)i0)), VR(m.vCountSame(A, B, (vec_len_t)i0)) } });
	t.push_back({ "vCountSameBatch", "ql q", EXACT, 0, su_off<X>, nullptr, { VR(m.vCountSameBatch_st_naive(A, (vec_len_t)i0, B)), VR(m.vCountSameBatch(A, (vec_len_t)i0, B)) } });
	// row-wise operations
	t.push_back({ "softmax", "n?", RED, 0, nullptr, MEM(m.template softmax_needTempMem<R>(sz)), { V(m.softmax_st(A)), V(m.softmax_mt(A)), V(m.softmax(A)) } });
	t.push_back({ "softmax_wide", "n?", RED, F_CW, nullptr, MEM(m.template softmax_needTempMem<R>(sz)), { V(m.softmax_st(A)), V(m.softmax_mt(A)), V(m.softmax(A)) } });
	t.push_back({ "mrwDivideByVec", "n pv", EW, 0, nullptr, nullptr, { V(m.mrwDivideByVec_st(A, B.data())), V(m.mrwDivideByVec_mt(A, B.data())), V(m.mrwDivideByVec(A, B.data())), V(m.mrwDivideByVec_st_cw(A, B.data())), V(m.mrwDivideByVec_st_rw(A, B.data())), V(m.mrwDivideByVec_mt_cw(A, B.data())), V(m.mrwDivideByVec_mt_rw(A, B.data())) } });
	t.push_back({ "mrwMulByVec", "n pv", EW, 0, nullptr, nullptr, { V(m.mrwMulByVec_st(A, B.data())), V(m.mrwMulByVec_mt(A, B.data())), V(m.mrwMulByVec(A, B.data())), V(m.mrwMulByVec_st_cw(A, B.data())), V(m.mrwMulByVec_st_rw(A, B.data())), V(m.mrwMulByVec_mt_cw(A, B.data())), V(m.mrwMulByVec_mt_rw(A, B.data())) } });
	t.push_back({ "mrwIdxsOfMax", "n", EXACT, F_IDX, su_rows<X>, MEM(m.template mrwIdxsOfMax_needTempMem<R>((vec_len_t)c.r)), { V(m.mrwIdxsOfMax_st(A, idx)), V(m.mrwIdxsOfMax_mt(A, idx)), V(m.mrwIdxsOfMax(A, idx)), V(m.mrwIdxsOfMax_st_cw(A, idx)), V(m.mrwIdxsOfMax_st_rw(A, idx)), V(m.mrwIdxsOfMax_st_rw_small(A, idx)), V(m.mrwIdxsOfMax_mt_rw(A, idx)) } });
	t.push_back({ "mrwIdxsOfMax_wide", "q", EXACT, F_CW | F_IDX, su_rows<X>, MEM(m.template mrwIdxsOfMax_needTempMem<R>((vec_len_t)c.r)), { V(m.mrwIdxsOfMax_st(A, idx)), V(m.mrwIdxsOfMax_mt(A, idx)), V(m.mrwIdxsOfMax(A, idx)), V(m.mrwIdxsOfMax_st_cw(A, idx)), V(m.mrwIdxsOfMax_st_rw_small(A, idx)), V(m.mrwIdxsOfMax_mt_rw(A, idx)), V(m.mrwIdxsOfMax_mt_cw(A, idx)) } });
	t.push_back({ "mrwMax", "n nv", EXACT, 0, nullptr, nullptr, { V(m.mrwMax_st(A, B.data())), V(m.mrwMax_mt(A, B.data())), V(m.mrwMax(A, B.data())), V(m.mrwMax_st_cw(A, B.data())), V(m.mrwMax_st_rw(A, B.data())), V(m.mrwMax_st_rw_small(A, B.data())), V(m.mrwMax_mt_rw(A, B.data())) } });
	t.push_back({ "mrwSum_ip", "n", RED, F_CW, nullptr, MEM(m.template mrwSum_ip_needTempMem<R>(sz)), { V(m.mrwSum_ip_st(A)), V(m.mrwSum_ip_mt(A)), V(m.mrwSum_ip(A)), V(m.mrwSum_ip_st_cw(A)), V(m.mrwSum_ip_st_rw(A)), V(m.mrwSum_ip_st_rw_small(A)), V(m.mrwSum_ip_mt_cw(A)), V(m.mrwSum_ip_mt_rw(A)) } });
	t.push_back({ "mrwSum", "n nv", RED, F_CW, nullptr, MEM(m.template mrwSum_needTempMem<R>(sz)), { V(m.mrwSum_st(A, B.data())), V(m.mrwSum_mt(A, B.data())), V(m.mrwSum(A, B.data())), V(m.mrwSum_st_cw(A, B.data())), V(m.mrwSum_st_rw(A, B.data())), V(m.mrwSum_mt_cw(A, B.data())), V(m.mrwSum_mt_rw(A, B.data())) } });
	t.push_back({ "mrwSum_narrow", "n nv", RED, F_COLS2, nullptr, MEM(m.template mrwSum_needTempMem<R>(sz)), { V(m.mrwSum_st(A, B.data())), V(m.mrwSum_mt(A, B.data())), V(m.mrwSum(A, B.data())) } });
	// column-wise operations
	t.push_back({ "mcwMean", "n nw", RED, 0, nullptr, nullptr, { V(m.template mcwMean_st<false>(A, B.data())), V(m.template mcwMean_mt<false>(A, B.data())), V(m.template mcwMean<false>(A, B.data())), V(m.template mcwMean_st<true>(A, B.data())), V(m.template mcwMean_mt<true>(A, B.data())), V(m.template mcwMean<true>(A, B.data())) } });
	t.push_back({ "mcwDeMean", "n", RED, 0, nullptr, nullptr, { V(m.template mcwDeMean_st<false>(A)), V(m.template mcwDeMean_mt<false>(A)), V(m.template mcwDeMean<false>(A)), V(m.template mcwDeMean_st<true>(A)), V(m.template mcwDeMean_mt<true>(A)), V(m.template mcwDeMean<true>(A)) } });
	t.push_back({ "mcwDeMeanNZ", "z", RED, 0, nullptr, nullptr, { V(m.template mcwDeMeanNZ_st<false>(A)), V(m.template mcwDeMeanNZ_mt<false>(A)), V(m.template mcwDeMeanNZ<false>(A)), V(m.template mcwDeMeanNZ_st<true>(A)), V(m.template mcwDeMeanNZ_mt<true>(A)), V(m.template mcwDeMeanNZ<true>(A)) } });
	EW3(mcwSub_ip, "n nw", A, B.data()) EW3(mcwMulDiag_ip, "n ns", A, B)
	// data movement
	EW3S(mCloneCols, "n nx", su_spec<X>, A, B, idx) EW3(mCloneCol, "n1 n", A, B)
	t.push_back({ "mTilingRoll", "nT nt", EXACT, F_ROWS2, su_tile<X>, nullptr, { V(m.mTilingRoll_st(A, B)), V(m.mTilingRoll_mt(A, B)), V(m.mTilingRoll(A, B)), V(m.mTilingRoll_seqread_st(A, B)), V(m.mTilingRoll_seqread_mt(A, B)), V(m.mTilingRoll_seqwrite_st(A, B)), V(m.mTilingRoll_seqwrite_mt(A, B)) } });
	t.push_back({ "mTilingRoll_bias", "nT+ nt+", EXACT, F_ROWS2, su_tile<X>, nullptr, { V(m.mTilingRoll_st(A, B)), V(m.mTilingRoll_mt(A, B)), V(m.mTilingRoll(A, B)), V(m.mTilingRoll_seqread_st(A, B)), V(m.mTilingRoll_seqread_mt(A, B)), V(m.mTilingRoll_seqwrite_st(A, B)), V(m.mTilingRoll_seqwrite_mt(A, B)) } });
	t.push_back({ "mTilingUnroll", "nt nT", EXACT, F_ROWS2, su_tile<X>, nullptr, { V(m.mTilingUnroll_st(A, B)), V(m.mTilingUnroll_mt(A, B)), V(m.mTilingUnroll(A, B)), V(m.mTilingUnroll_seqread_st(A, B)), V(m.mTilingUnroll_seqread_mt(A, B)), V(m.mTilingUnroll_seqwrite_st(A, B)), V(m.mTilingUnroll_seqwrite_mt(A, B)) } });
	t.push_back({ "mTilingUnroll_bias", "nt+ nT+", EXACT, F_ROWS2, su_tile<X>, nullptr, { V(m.mTilingUnroll_st(A, B)), V(m.mTilingUnroll_mt(A, B)), V(m.mTilingUnroll(A, B)), V(m.mTilingUnroll_seqread_st(A, B)), V(m.mTilingUnroll_seqread_mt(A, B)), V(m.mTilingUnroll_seqwrite_st(A, B)), V(m.mTilingUnroll_seqwrite_mt(A, B)) } });
	t.push_back({ "mExtractRows", "n ni", EXACT, 0, su_perm<X>, nullptr, { V(m.mExtractRows_seqWrite_st(A, (const vec_len_t*)idx, B)), V(m.mExtractRows_seqWrite_mt(A, (const vec_len_t*)idx, B)), V(m.mExtractRows(A, (const vec_len_t*)idx, B)), V(m.mExtractBatches(A, (const vec_len_t*)idx, B)) } });
	t.push_back({ "mExtractRows_bias", "n+ ni+", EXACT, 0, su_perm<X>, nullptr, { V(m.mExtractRows_seqWrite_st(A, (const vec_len_t*)idx, B)), V(m.mExtractRows_seqWrite_mt(A, (const vec_len_t*)idx, B)), V(m.mExtractRows(A, (const vec_len_t*)idx, B)), V(m.mExtractBatches(A, (const vec_len_t*)idx, B)) } });
	t.push_back({ "mExtractCols", "n nc", EXACT, 0, su_cols<X>, nullptr, { V(m.mExtractCols_st(A, (const vec_len_t*)idx, B)), V(m.mExtractCols_mt(A, (const vec_len_t*)idx, B)), V(m.mExtractCols(A, (const vec_len_t*)idx, B)) } });
	t.push_back({ "mExtractRowsSeq", "nl n", EXACT, 0, su_off<X>, nullptr, { V(m.mExtractRowsSeq_st(A, (vec_len_t)i0, B)), V(m.mExtractRowsSeq_mt(A, (vec_len_t)i0, B)), V(m.mExtractRowsSeq(A, (vec_len_t)i0, B)) } });
	t.push_back({ "mExtractRowsSeq_bias", "nl+ n+", EXACT, 0, su_off<X>, nullptr, { V(m.mExtractRowsSeq_st(A, (vec_len_t)i0, B)), V(m.mExtractRowsSeq_mt(A, (vec_len_t)i0, B)), V(m.mExtractRowsSeq(A, (vec_len_t)i0, B)) } });
	t.push_back({ "mExtractRowsByMask", "n? nx? nv", EXACT, 0, su_mask<X>, nullptr, { V(fill_mask(c, C); m.mExtractRowsByMask_st(A, C.data(), B)), V(fill_mask(c, C); m.mExtractRowsByMask_mt(A, C.data(), B)), V(fill_mask(c, C); m.mExtractRowsByMask(A, C.data(), B)) } });
	t.push_back({ "mFillRowsByMask", "nx? n? nv", EXACT, 0, su_mask<X>, nullptr, { V(fill_mask(c, C); m.mFillRowsByMask_st(A, C.data(), B)), V(fill_mask(c, C); m.mFillRowsByMask_mt(A, C.data(), B)), V(fill_mask(c, C); m.mFillRowsByMask(A, C.data(), B)) } });
	// norms
	t.push_back({ "mrwL2NormSquared", "n nV", RED, F_CW, nullptr, MEM(m.template mrwL2NormSquared_needTempMem<R>(Sz<R>(c.r, c.c))), { V(m.mrwL2NormSquared_st(A, B.data())), V(m.mrwL2NormSquared_mt(A, B.data())), V(m.mrwL2NormSquared(A, B.data())) } });
	t.push_back({ "mrwL2NormSquared_narrow", "n nV", RED, 0, nullptr, MEM(m.template mrwL2NormSquared_needTempMem<R>(Sz<R>(c.r, c.c))), { V(m.mrwL2NormSquared_st(A, B.data())), V(m.mrwL2NormSquared_mt(A, B.data())), V(m.mrwL2NormSquared(A, B.data())) } });
	t.push_back({ "mCheck_normalize_rows", "n", RED, F_COLS2, nullptr, MEM(m.template mCheck_normalize_rows_needTempMem<R>(Sz<R>(c.r, c.c))), { V(m.mCheck_normalize_rows_st(A, k * 4, true)), V(m.mCheck_normalize_rows_mt(A, k * 4, true)), V(m.mCheck_normalize_rows(A, k * 4, true)) } });
	t.push_back({ "mCheck_normalize_rows_nb", "n", RED, F_CW, nullptr, MEM(m.template mCheck_normalize_rows_needTempMem<R>(Sz<R>(c.r, c.c))), { V(m.mCheck_normalize_rows_st(A, k * 4, false)), V(m.mCheck_normalize_rows_mt(A, k * 4, false)), V(m.mCheck_normalize_rows(A, k * 4, false)) } });
	t.push_back({ "mrwSetL2Norm", "n", RED, F_CW, nullptr, MEM(m.template mrwSetL2Norm_needTempMem<R>(Sz<R>(c.r, c.c))), { V(m.mrwSetL2Norm_st(A, k, true)), V(m.mrwSetL2Norm_mt(A, k, true)), V(m.mrwSetL2Norm(A, k, true)) } });
	t.push_back({ "mrwSetL2Norm_nb", "n", RED, F_CW, nullptr, MEM(m.template mrwSetL2Norm_needTempMem<R>(Sz<R>(c.r, c.c))), { V(m.mrwSetL2Norm_st(A, k, false)), V(m.mrwSetL2Norm_mt(A, k, false)), V(m.mrwSetL2Norm(A, k, false)) } });
	t.push_back({ "mrwOr", "b nv", EXACT, F_CW, nullptr, MEM(m.template mrwOr_needTempMem<R>(Sz<R>(c.r, c.c))), { V(m.mrwOr_st(A, B.data())), V(m.mrwOr_mt(A, B.data())), V(m.mrwOr(A, B.data())), V(m.mrwOr_st_cw(A, B.data())), V(m.mrwOr_st_rw(A, B.data())), V(m.mrwOr_mt_cw(A, B.data())), V(m.mrwOr_mt_rw(A, B.data())) } });
	// loss addendum
	t.push_back({ "loss_deCov", "n?", RED, F_COLS2, nullptr, MEM(M::loss_DeCov_needTempMem(true, sz)), { VR(m.template loss_deCov<true, false>(A)), VR(m.template loss_deCov<false, false>(A)), VR(m.template loss_deCov<true, true>(A)), VR(m.template loss_deCov<false, true>(A)) } });
	t.push_back({ "dLoss_deCov", "n? n", RED, F_COLS2, nullptr, MEM(M::loss_DeCov_needTempMem(true, sz)), { V(m.template dLoss_deCov<true, false>(A, B, k)), V(m.template dLoss_deCov<false, false>(A, B, k)), V(m.template dLoss_deCov<true, true>(A, B, k)), V(m.template dLoss_deCov<false, true>(A, B, k)) } });
	// optimisers
	EW3(RMSProp_Hinton, "n p", A, B, k, k2, R(1e-4)) EW3(ModProp, "n p", A, B, k, k2, R(1e-4)) EW3(RProp, "z", A, k)
	t.push_back({ "RMSProp_Graves", "n p u", EW, 0, nullptr, nullptr, { V(gr(C); m.RMSProp_Graves_st(A, B, C, k, k2, R(1e-2))), V(gr(C); m.RMSProp_Graves_mt(A, B, C, k, k2, R(1e-2))), V(gr(C); m.RMSProp_Graves(A, B, C, k, k2, R(1e-2))) } });
#define OPT(f, v, ...) t.push_back({ #f, "n n p", EW, 0, nullptr, nullptr, { V(R b1 = R(.9) * k; R b2 = R(.99) * k2; m.f##_st(A, B, C, __VA_ARGS__); c.out[0] = b1; c.out[1] = b2), V(R b1 = R(.9) * k; R b2 = R(.99) * k2; m.f##_mt(A, B, C, __VA_ARGS__); c.out[0] = b1; c.out[1] = b2), V(R b1 = R(.9) * k; R b2 = R(.99) * k2; m.f(A, B, C, __VA_ARGS__); c.out[0] = b1; c.out[1] = b2) } });
	OPT(Adam, 2, b1, b2, k, R(.9), R(.99), R(1e-5)) OPT(AdaMax, 1, b1, k, R(.9), R(.99), R(1e-5)) OPT(RNadam, 2, b1, b2, k, R(.9), R(.99), R(.1), R(1e-5))
	// transposition
#define BR B.set_batchInRow(true)
	t.push_back({ "mTranspose", "n nS", EXACT, 0, nullptr, nullptr, { V(BR; m.mTranspose(A, B)), V(BR; m.mTranspose_ignore_bias(A, B)), V(BR; m.mTranspose_seq_read(A, B, false)), V(BR; m.mTranspose_seq_write(A, B, false)), V(BR; m.mTranspose_seq_read(A, B, true)), V(BR; m.mTranspose_seq_write(A, B, true)), V(memcpy(B.data(), A.data(), sizeof(R) * A.numel()); B.deform(A.rows(), A.cols()); M::s_mTranspose_ip(B)) } });
	t.push_back({ "softmax_parts", "n nv n nV", RED, F_CW, nullptr, MEM(m.template mrwSum_ip_needTempMem<R>(sz)), { V(m.softmax_parts_st(A, B.data(), D.data(), C.data())), V(m.softmax_parts_mt(A, B.data(), D.data(), C.data())), V(m.softmax_parts(A, B.data(), D.data(), C.data())), V(m.softmax_parts_st_rw(A, B.data(), D.data(), C.data())), V(m.softmax_parts_mt_rw(A, B.data(), D.data(), C.data())), V(m.softmax_parts_mt_cw(A, B.data(), D.data(), C.data())) } });
	t.push_back({ "mcwSum", "n? nw", RED, 0, nullptr, nullptr, { V(m.template mcwSum<false>(A, B.data())), V(m.template mcwSum<true>(A, B.data())) } });
	// matrices that keep a sample in a column (the bias is then a row); the second letter of a pair of layouts may differ
	t.push_back({ "bir_evMulC_ip", "n?!", EW, 0, nullptr, nullptr, { V(m.evMulC_ip_st(A, k, true)), V(m.evMulC_ip_mt(A, k, true)), V(m.evMulC_ip(A, k, true)), V(m.evMulC_ip_nb(A, k)) } });
	t.push_back({ "bir_evAddC_ip", "n?!", EW, 0, nullptr, nullptr, { V(m.evAddC_ip_st(A, k, true)), V(m.evAddC_ip_mt(A, k, true)), V(m.evAddC_ip(A, k, true)), V(m.evAddC_ip_nb(A, k)) } });
	t.push_back({ "bir_evMulCAddC_ip", "n?!", EW, 0, nullptr, nullptr, { V(m.evMulCAddC_ip_st(A, k, k2, true)), V(m.evMulCAddC_ip_mt(A, k, k2, true)), V(m.evMulCAddC_ip(A, k, k2, true)), V(m.evMulCAddC_ip_nb(A, k, k2)) } });
	t.push_back({ "mExtractBatches", "n?~ ni?=", EXACT, 0, su_perm<X>, nullptr, { V(m.mExtractBatches(A, (const vec_len_t*)idx, B)), V(if (A.bBatchInRow()) m.mExtractCols_mt(A, (const vec_len_t*)idx, B); else m.mExtractRows_seqWrite_mt(A, (const vec_len_t*)idx, B)), V(if (A.bBatchInRow()) m.mExtractCols_st(A, (const vec_len_t*)idx, B); else m.mExtractRows_seqWrite_st(A, (const vec_len_t*)idx, B)) } });
	t.push_back({ "mTranspose_nb", "n?~ n?^", EXACT, 0, nullptr, nullptr, { V(m.mTranspose(A, B, true)), V(m.mTranspose_ignore_bias(A, B)), V(m.mTranspose_seq_read(A, B, true)), V(m.mTranspose_seq_write(A, B, true)) } });
	t.push_back({ "mTranspose_full", "n+~ n+^", EXACT, 0, nullptr, nullptr, { V(m.mTranspose(A, B)), V(m.mTranspose_seq_read(A, B, false)), V(m.mTranspose_seq_write(A, B, false)), V(m.mTranspose_ignore_bias(A, B)) } });
	t.push_back({ "mTranspose_ip", "n?~", EXACT, 0, nullptr, nullptr, { VR((m.s_mTranspose_ip(A), A.rows() * 4096. + A.cols() * 4 + A.bBatchInRow() * 2 + A.emulatesBiases())) } });
	t.push_back({ "mMul_prevAct_weights_2_act", "n+~ nW nY?~", RED, 0, su_n<X>, nullptr, { V(m.mMul_prevAct_weights_2_act(A, B, C)) } });
	t.push_back({ "mMul_dLdZ_weights_2_dLdAPrev", "nY nW n~", RED, 0, su_n<X>, nullptr, { V(m.mMul_dLdZ_weights_2_dLdAPrev(A, B, C)) } });
	t.push_back({ "mMulScaled_dLdZ_prevAct_2_dLdW", "nY n+~ nW", RED, 0, su_n<X>, nullptr, { V(m.mMulScaled_dLdZ_prevAct_2_dLdW(k, A, B, C)) } });
	t.push_back({ "mMulAB_C", "n nQ nY", RED, 0, su_n<X>, nullptr, { V(m.mMulAB_C(A, B, C)) } });
	t.push_back({ "mMulABt_Cnb", "n nP nY?", RED, 0, su_n<X>, nullptr, { V(m.mMulABt_Cnb(A, B, C)) } });
	t.push_back({ "mScaledMulAtB_C", "n nY nQ", RED, 0, su_n<X>, nullptr, { V(m.mScaledMulAtB_C(k, A, B, C)) } });
	t.push_back({ "mColumnsCov_lower", "n ns", RED, F_COLS2, nullptr, nullptr, { V(m.template mColumnsCov<true>(A, B)), V(m.mColumnsCov(A, B, true)) } });
	t.push_back({ "mColumnsCov_upper", "n ns", RED, F_COLS2, nullptr, nullptr, { V(m.template mColumnsCov<false>(A, B)), V(m.mColumnsCov(A, B, false)) } });
	const auto defs = definitions<M>(); for (auto& o : t) { auto i = defs.find(o.name); if (i != defs.end()) o.v.insert(o.v.begin(), Var<M>{ "the definition", i->second }); else if (getenv("NODEF")) fprintf(stderr, "no definition: %s\n", o.name); }
	return t;
}
template<class M> static void s_math() {
	global_denormalized_floats_mode(); static std::vector<Op<M>>* T = nullptr; { sim::Oracle g; if (!T) T = new std::vector<Op<M>>(table<M>()); }
	M* m = new M; const int n = (int)sim::rng(1, 5); for (int i = 0; i < n; ++i) { const auto& op = (*T)[sim::rnd(T->size())]; run_op(*m, op, i); } delete m;
}
// the K best values of every column over a sequence of batches, with the places they came from
template<class M, template<class> class Ord> static void findk(M& m, bool biggest, bool distinct) {
	typedef typename M::real_t R; typedef math::mcwFindKOrdered_hlpr<R, Ord> H; typedef typename H::hlprmtx_t HM; const int k = (int)sim::rng(1, 5), cols = (int)sim::rng(1, 9), nb = (int)sim::rng(1, 4); const bool ties = sim::chance(.5); const bool agg = sim::chance(.6);
	HM* h = new HM(H::hlprmtx_size_for(k, cols)); typename H::Aggregator* ag = new typename H::Aggregator; std::vector<std::vector<std::vector<R>>>* all; { sim::Oracle g; all = new std::vector<std::vector<std::vector<R>>>; memset(h->data(), 0xff, h->byte_size()); }
	for (int b = 0; b < nb; ++b) {
		const int rows = (b ? 1 : k) + (int)sim::rnd(12); const bool bias = sim::chance(.3); math::smatrix<R>* src = new math::smatrix<R>(rows, cols, bias); { sim::Oracle g; std::vector<std::vector<R>> d; for (int c = 0; c < cols; ++c) { std::vector<R> v; for (int r = 0; r < rows; ++r) v.push_back(ties ? (R)((int)sim::rnd(12) - 6) : (R)((double)sim::rnd(1 << 20) / 1000 - 500)); if (!b) for (int r = 0; r < k; ++r) v[r] = (R)(r * 2 - 6) + (ties ? R(0) : R(.5)); if (!b && sim::chance(.5)) for (int r = 0; r < rows; ++r) std::swap(v[r], v[sim::rnd(rows)]); memcpy(src->colDataAsVec(c), v.data(), rows * sizeof(R)); d.push_back(v); } all->push_back(d); }
		sim::context("the %d %s%s values of %d columns, batch %d of %d rows, %d threads", k, biggest ? "biggest" : "smallest", distinct ? " distinct" : "", cols, b, rows, (int)m.ithreads().cur_workers_count());
		if (biggest) { if (distinct) m.mcwFindKBiggestDistinct(*src, *h, b > 0); else m.mcwFindKBiggest(*src, *h, b > 0); } else { if (distinct) m.mcwFindKSmallestDistinct(*src, *h, b > 0); else m.mcwFindKSmallest(*src, *h, b > 0); }
		if (agg && !ag->aggregate(*h, b)) sim::fail("memory", "no memory for the aggregation");
		sim::Oracle g; sim::probe(distinct ? "findk distinct" : "findk"); sim::note_bytes(h->data(), 8); delete src; if (!Values) continue;
		for (int c = 0; c < cols; ++c) {
			std::vector<R> best; for (auto& d : *all) best.insert(best.end(), d[c].begin(), d[c].end()); std::sort(best.begin(), best.end()); if (biggest) std::reverse(best.begin(), best.end()); if (distinct) best.erase(std::unique(best.begin(), best.end()), best.end());
			const auto* hc = h->colDataAsVec(c); const auto* pv = H::get_cache_ptr_from_column_ptr(hc, k); const auto* pi = H::get_idxs_ptr_from_column_ptr(hc, k); std::vector<int> used;
			for (int j = 0; j < k; ++j) { const R v = pv[k - 1 - j]; if (v != best[j]) sim::fail("findk", "place %d of column %d is %g, not %g", j, c, (double)v, (double)best[j]); const int ix = (int)pi[k - 1 - j]; if (ix < -1 || ix >= (int)(*all)[b][c].size() || (ix >= 0 && (*all)[b][c][ix] != v)) sim::fail("findk", "place %d of column %d (value %g) is said to come from row %d", j, c, (double)v, ix); if (ix >= 0) { if (std::count(used.begin(), used.end(), ix)) sim::fail("findk", "row %d of column %d is listed twice", ix, c); used.push_back(ix); }
				if (ix < 0) { bool f = false; for (int o = 0; o < b; ++o) for (R z : (*all)[o][c]) f |= z == v; if (!f) sim::fail("findk", "value %g of column %d is said to come from an earlier batch", (double)v, c); } }
		}
	}
	if (agg) {
		math::smatrix<R>* ev = new math::smatrix<R>; if (!ag->export_values(*ev)) sim::fail("memory", "no memory for the exported values"); std::vector<bool>* use = new std::vector<bool>(ag->batches_in_use(nb)); sim::Oracle g; std::vector<bool> seen(nb, false);
		if (Values) { std::vector<std::vector<int>> got(cols, std::vector<int>(k, 0)); std::set<std::tuple<int, int, int>> src; for (int b = 0; b < nb; ++b) ag->for_batchIdx(b, [&](vec_len_t c, vec_len_t r, R v, vec_len_t ix) { seen[b] = true; if (c < 0 || c >= cols || r < 0 || r >= k) { sim::fail("findk", "aggregated place %d of column %d", (int)r, (int)c); } got[c][r]++; if (ix < 0 || ix >= (int)(*all)[b][c].size() || (*all)[b][c][ix] != v || v != ev->get(r, c)) sim::fail("findk", "aggregated place %d of column %d is %g, said to come from row %d of batch %d", (int)r, (int)c, (double)v, (int)ix, b); if (!src.insert(std::make_tuple((int)c, b, (int)ix)).second) sim::fail("findk", "row %d of batch %d is listed twice for column %d", (int)ix, b, (int)c); return true; });
			for (int c = 0; c < cols; ++c) { std::vector<R> best; for (auto& d : *all) best.insert(best.end(), d[c].begin(), d[c].end()); std::sort(best.begin(), best.end()); if (biggest) std::reverse(best.begin(), best.end()); if (distinct) best.erase(std::unique(best.begin(), best.end()), best.end()); for (int j = 0; j < k; ++j) { if (got[c][j] != 1) sim::fail("findk", "aggregated place %d of column %d is visited %d times", j, c, got[c][j]); if (ev->get(j, c) != best[j]) sim::fail("findk", "aggregated place %d of column %d is %g, not %g", j, c, (double)ev->get(j, c), (double)best[j]); } }
			for (int b = 0; b < nb; ++b) if (seen[b] != (*use)[b]) sim::fail("findk", "batch %d use is wrong", b); }
		delete ev; delete use;
	}
	delete h; delete ag; sim::Oracle g; delete all;
}
template<class M> static void s_findk() { global_denormalized_floats_mode(); M* m = new M; const int n = (int)sim::rng(1, 4); for (int i = 0; i < n; ++i) { const int w = (int)sim::rnd(4); if (!sim::keep_op()) continue; switch (w) { case 0: findk<M, math::Order_Biggest>(*m, true, false); break; case 1: findk<M, math::Order_BiggestDistinct>(*m, true, true); break; case 2: findk<M, math::Order_Smallest>(*m, false, false); break; default: findk<M, math::Order_SmallestDistinct>(*m, false, true); } } delete m; }
template<class M> static void s_findk_values() { Values = true; s_findk<M>(); }
template<class M> static void s_findk_races() { Values = false; s_findk<M>(); }
SIM_SCENARIO(P06, findk_double, s_findk_values<MD>, nullptr, 1) SIM_SCENARIO(P06, findk_float, s_findk_values<MF>, nullptr, 1) SIM_SCENARIO(P04, findk_double, s_findk_races<MD>, nullptr, 1)
template<class M> static void s_values() { Values = true; s_math<M>(); }
template<class M> static void s_races() { Values = false; s_math<M>(); }
SIM_SCENARIO(P06, math_double, s_values<MD>, nullptr, 7) SIM_SCENARIO(P06, math_float, s_values<MF>, nullptr, 7)
SIM_SCENARIO(P04, math_double, s_races<MD>, nullptr, 7) SIM_SCENARIO(P04, math_float, s_races<MF>, nullptr, 7)
