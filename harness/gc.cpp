// P24: the numeric gradient check accepts right gradients, finds wrong ones and leaves the network as it was
#include "arch2.h"
#include <nntl/interface/inspectors/gradcheck.h>
namespace sim { static char g_out[1 << 15]; static size_t g_outn; struct capbuf : std::streambuf { int overflow(int c) override { if (g_outn < sizeof g_out - 1) g_out[g_outn++] = (char)c; else { memmove(g_out, g_out + sizeof g_out / 2, g_outn - sizeof g_out / 2); g_outn -= sizeof g_out / 2; g_out[g_outn++] = (char)c; } return c; } }; static capbuf g_cap; std::ostream nullout(&g_cap); }
// what the inspector is to falsify: the gradient a layer reports
struct Tamper { int layer = 0, r = 0, c = 0; bool dA = false, back = false; double add = 0, mul = 1; int hits = 0; };
static Tamper g_t;
// The numeric derivative is a difference of two losses: where it and the analytic one are within the rounding of the losses, the check cannot tell and its verdict is not judged.
static double g_loss[2]; static bool g_below; static bool noise(bool ok) { const bool n = !ok && g_below; if (n) sim::probe("below-rounding"); return n; }
template<class R, class Th> struct GMath final : math::_MathN<R, Th, imem::imemmgr, math::_impl::MATHN_THR<R>, GMath<R, Th>> { typedef math::_MathN<R, Th, imem::imemmgr, math::_impl::MATHN_THR<R>, GMath<R, Th>> B; R loss_quadratic(const math::smatrix<R>& a, const math::smatrix<R>& y) noexcept { const R v = B::loss_quadratic(a, y); g_loss[0] = g_loss[1]; g_loss[1] = v; return v; } };
template<class R> struct Gc : inspector::GradCheck<R, Rec<R>> {
	typedef inspector::GradCheck<R, Rec<R>> B; typedef math::smatrix<R> mtx;
	R get_analytical_value() const noexcept { const R v = B::get_analytical_value(); const double lim = 1e-12 * (1 + std::fabs(g_loss[1])), d = std::fabs(g_loss[1] - g_loss[0]); g_below = d <= lim && std::fabs(v) * 2 * this->m_stepSize <= lim && (d != 0 || v != 0); return v; }
	static void hit(const mtx& m, int r, int c) noexcept { R& v = const_cast<mtx&>(m).get(r, c); v = (R)(v * g_t.mul + g_t.add); ++g_t.hits; }
	void bprop_dLdW(const mtx& z, const mtx& p, const mtx& w) noexcept { if (g_t.layer && !g_t.dA && g_t.layer == (int)(layer_index_t)this->m_curLayer) hit(w, g_t.r, g_t.c); B::bprop_dLdW(z, p, w); }
	void bprop_finaldLdA(const mtx& a) noexcept { if (g_t.layer && g_t.dA && g_t.layer == (int)(layer_index_t)this->m_curLayer && this->m_curLayer.bUpperLayerDifferent()) {
		std::vector<R>* keep = nullptr; { sim::Oracle g; if (g_t.back) keep = new std::vector<R>(a.colDataAsVec(g_t.c), a.colDataAsVec(g_t.c) + a.rows()); for (int r = 0; r < (int)a.rows(); ++r) hit(a, r, g_t.c); } B::bprop_finaldLdA(a); sim::Oracle g; if (keep) { std::copy(keep->begin(), keep->end(), const_cast<mtx&>(a).colDataAsVec(g_t.c)); delete keep; } } else B::bprop_finaldLdA(a); }
};
template<class R> struct Gw : d_int_nI<R> { typedef GMath<R, typename d_int_nI<R>::iThreads_t> iMath_t; typedef Gc<R> iInspect_t; };
template<class R> struct Gs : Is<R> { typedef GMath<R, typename Is<R>::iThreads_t> iMath_t; typedef Gc<R> iInspect_t; };
struct LyI { int idx, n, inc; };
template<class A, class I> struct GSys : Sys<A, I> {
	std::vector<LyI>* L; using Sys<A, I>::Sys;
	void init_list() { { sim::Oracle g; L = new std::vector<LyI>; } this->a->lp.for_each_layer_exc_input([this](auto& l) noexcept { if constexpr (layer_has_gradworks<std::decay_t<decltype(l)>>::value) { sim::Oracle g; L->push_back(LyI{ (int)l.get_layer_idx(), (int)l.get_neurons_cnt(), (int)l.get_incoming_neurons_cnt() }); } }); }
	~GSys() { sim::Oracle g; delete L; }
};
// no exactly zero weights at the output: with those two samples may cancel out to a derivative of exactly zero, of which the numeric one sees only rounding
struct QPo { static constexpr const char* name = "gated optional pack"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef Base<I> B; typedef typename B::R R; typename B::In in; typedef LFC<activation::softsigm<R>, typename B::GW> L; LIGf<500000, true, I> gate; L a, b1, b2; LPVt<std::tuple<L&, L&>> v; LPHOt<true, std::tuple<PHL<LIGf<500000, true, I>>, PHL<L>, PHL<LPVt<std::tuple<L&, L&>>>>> po; layer_output<activation::sigm_quad_loss<R, weights_init::XavierFour>, typename B::GW> out; layers<decltype(in), decltype(po), decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), a(c.h1, (R)c.lr), b1(c.h2, (R)c.lr), b2(c.h1, (R)c.lr), v(std::tie(b1, b2)), po(std::make_tuple(make_PHL(gate, 1, 2), make_PHL(a, 0, 1), make_PHL(v, 3, (neurons_count_t)(c.xw - 3)))), out(c.yw, (R)c.lr), lp(in, po, out) {} }; };
template<class A> struct gated_ : std::bool_constant<std::is_same<A, QPo>::value || std::is_same<A, GGate>::value> {};
struct QFc { static constexpr const char* name = "sigm-softsigm"; static constexpr bool onehot = false; template<class I, class R = typename I::real_t> using N = Net3<LFC<activation::sigm<R, weights_init::XavierFour>, GW_>, LFC<activation::softsigm<R>, GW_>, layer_output<activation::sigm_quad_loss<R, weights_init::XavierFour>, GW_>, I>; template<class I> struct T : N<I> { T(const Cfg& c) : N<I>(c) {} }; };
struct QSm { static constexpr const char* name = "dropout-softsigm"; static constexpr bool onehot = false; template<class I, class R = typename I::real_t> using N = Net3<LFC_DO<activation::softsign<R>, GW_>, LFC_DO<activation::sigm<R, weights_init::XavierFour>, GW_>, layer_output<activation::softsigm_quad_loss<R>, GW_>, I>; template<class I> struct T : N<I> { T(const Cfg& c) : N<I>(c) { this->h1.dropoutPercentActive((typename I::real_t)c.dpa); this->h2.dropoutPercentActive((typename I::real_t)c.dpa); } }; };
struct QPt { static constexpr const char* name = "tiled pack"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef typename I::real_t R; typedef LFC<activation::softsigm<R>, GW_> L; layer_input<I> in; L u, t; LPT<L> pt; layer_output<activation::sigm_quad_loss<R, weights_init::XavierFour>, GW_> out; layers<layer_input<I>, L, LPT<L>, decltype(out)> lp; T(const Cfg& c) : in(c.xw), u((neurons_count_t)(2 * c.tiles), (R)c.lr), t(c.h1, (R)c.lr), pt(t, c.tiles), out(c.yw, (R)c.lr), lp(in, u, pt, out) {} }; };
struct GcArg { int bs, obs; double step, fail; bool verbose, force, all; int g0, g1, s0, s1, zero; int ignore; bool skippable; int lax = 0, zeroW = -1; bool ign1 = false; };
static GcArg draw_gc(int n, bool rndfprop) { GcArg a; a.bs = sim::chance(.25) ? n : (int)sim::rng(1, n); a.obs = sim::chance(.4) ? 1 : sim::chance(.3) ? n : (int)sim::rng(1, n); a.step = sim::chance(.5) ? 1e-4 : 3e-5; a.fail = .2; a.verbose = sim::chance(.4); a.force = rndfprop || sim::chance(.5); a.all = sim::chance(.5); a.g0 = (int)sim::rng(1, 3); a.g1 = sim::chance(.5) ? (int)sim::rng(1, 100) : 0; a.s0 = (int)sim::rng(1, 4); a.s1 = sim::chance(.5) ? (int)sim::rng(1, 100) : 0; a.zero = 100; a.ignore = 0; a.skippable = true; return a; }
static int g_gcruns;
template<class S> static bool gc_run(S& s, const GcArg& a, const math::smatrix<typename S::R>& x, const math::smatrix<typename S::R>& y, int* failed) {
	typedef typename S::R R; gradcheck_settings<R> st(a.verbose, a.force, (R)a.step); st.onlineBatchSize = a.obs;
	if (a.all) { if (a.g1) { st.groupSetts.set(1, 100); st.subgroupSetts.set(1, 100); } else { st.groupSetts.set(1000); st.subgroupSetts.set(1000); } } else { if (a.g1) st.groupSetts.set(a.g0, a.g1); else st.groupSetts.set(a.g0); if (a.s1) st.subgroupSetts.set(a.s0, a.s1); else st.subgroupSetts.set(a.s0); }
	st.evalSetts.dLdA_setts.relErrFailThrsh = st.evalSetts.dLdW_setts.relErrFailThrsh = (R)a.fail; if (a.lax == 1) st.evalSetts.dLdA_setts.relErrFailThrsh = (R)1e30; if (a.lax == 2) st.evalSetts.dLdW_setts.relErrFailThrsh = (R)1e30; st.evalSetts.dLdA_setts.percOfZeros = st.evalSetts.dLdW_setts.percOfZeros = a.zero; if (a.zeroW >= 0) st.evalSetts.dLdW_setts.percOfZeros = a.zeroW; st.evalSetts.bIgnoreZerodLdWInUndelyingLayer = a.ign1;
	if (a.ignore) st.ignoreLayerIds.push_back((layer_index_t)a.ignore); if (a.skippable) s.a->lp.for_each_layer_exc_input([&](auto& l) noexcept { st.layerCanSkipExecIds.push_back(l.get_layer_idx()); });
	g_below = false; sim::g_outn = 0; Log* keep = g_log; g_log = nullptr; const bool ok = s.nn->gradcheck(x, y, (vec_len_t)a.bs, st); g_log = keep; ++g_gcruns;
	sim::g_out[sim::g_outn] = 0; const char* p = strstr(sim::g_out, "failed within a layer with idx = "); *failed = p ? atoi(p + 33) : 0; if (ok != (p == nullptr) && !(!ok && (a.bs == 0 || strstr(sim::g_out, "Wrong data sizes")))) sim::fail("gradcheck-report", "the result is %d but the report says otherwise", (int)ok); return ok;
}
static const char* gc_why() { const char* p = strstr(sim::g_out, "FAILED!"); return p ? p + 8 : ""; }
template<class S> static void reseed(S& s, uint64_t v) { s.nn->get_iRng().seed64((int64_t)v); }
template<class R> static void same_w(const std::vector<R>& a, const std::vector<R>& b) { sim::Oracle g; const int64_t d = first_diff(a, b); if (d == -2) sim::fail("gradcheck-weights", "%zu weights became %zu", a.size(), b.size()); if (d >= 0) sim::fail("gradcheck-weights", "weight %ld changed from %.17g to %.17g", (long)d, (double)a[d], (double)b[d]); }
// a network with right gradients, before or after training: accepted; wrong gradients: rejected
template<class A, class I, bool RND> static void t_accept() {
	typedef typename I::real_t R; Cfg c = draw_cfg(14); c.onehot = A::onehot; auto* s = new GSys<A, I>(c); s->init_list(); GcArg a = draw_gc(c.n, RND);
	sim::context("%s %s batch=%d online=%d step=%g%s%s groups=%d/%d of %d/%d", A::name, c.str().c_str(), a.bs, a.obs, a.step, a.force ? " forced seed" : "", a.all ? " all" : "", a.g0, a.g1, a.s0, a.s1);
	g_t = Tamper(); const int pre = (int)sim::rnd(3); TrainSpec sp = spec_of(c); sp.diverge = false; sp.epochs = 1; if (pre == 1) { if ((int)s->train(sp, NoCb())) sim::fail("setup", "training failed"); } else if (pre == 2) { vec_len_t b = (vec_len_t)sim::rng(1, c.n); if ((int)s->nn->init4fixedBatchFprop(*s->td, b)) sim::fail("setup", "initialisation failed"); }
	std::vector<R>* w0 = nullptr; if (pre) { auto v = s->weights(); sim::Oracle g; w0 = new std::vector<R>(v); }
	auto &x = s->td->train_x(), &y = s->td->train_y(); int f; const bool ok = gc_run(*s, a, x, y, &f);
	if (!ok && !noise(ok)) sim::fail("gradcheck-rejects", "right gradients of layer %d are rejected: %.200s", f, gc_why());
	if (pre) { same_w(*w0, s->weights()); sim::Oracle g; delete w0; } else { { auto v = s->weights(); sim::Oracle g; w0 = new std::vector<R>(v); } const bool b = gc_run(*s, a, x, y, &f); same_w(*w0, s->weights()); sim::Oracle g; if (!b && !noise(b)) sim::fail("gradcheck-rejects", "right gradients of layer %d are rejected: %.200s", f, gc_why()); delete w0; }
	sim::probe(pre == 0 ? "fresh" : pre == 1 ? "trained" : "initialised"); check_td<R>(*s->td, c);
	// falsified gradients
	const auto& l = (*s->L)[sim::rnd(s->L->size())]; g_t.layer = l.idx; g_t.r = (int)sim::rnd(l.n); g_t.c = (int)sim::rnd(l.inc + 1); constexpr bool gated = gated_<A>::value; const bool nan = !gated && sim::chance(.15); g_t.add = nan ? NAN : sim::chance(.5) ? 1e3 : -1e3; g_t.mul = 1; a.all = true; a.skippable = gated || (!nan && sim::chance(.5)); if (gated) a.bs = c.n;
	g_t.dA = !gated && sim::chance(.4) && &l != &s->L->back(); if (g_t.dA) { g_t.c = (int)sim::rnd(l.n); g_t.back = sim::chance(.5); }
	if ((!g_t.dA || g_t.back) && sim::chance(.3)) a.lax = 1 + (int)sim::rnd(2); const bool lax = a.lax == (g_t.dA ? 1 : 2) && !nan;
	const bool ign = sim::chance(.2); a.ignore = ign ? l.idx : 0; const bool bad = gc_run(*s, a, x, y, &f); const int hits = g_t.hits; const bool dull = noise(bad);
	if (!ign && !lax && bad && (!gated || hits)) sim::fail("gradcheck-accepts", "a wrong %s of layer %d (%s%g at %d, %d) is accepted", g_t.dA ? "dL/dA" : "dL/dW", g_t.layer, nan ? "set to " : "off by ", g_t.add, g_t.r, g_t.c);
	if ((g_t.back || !g_t.dA) && lax && !bad && !dull) sim::fail("gradcheck-rejects", "gradients within the allowed error are rejected in layer %d: %.200s", f, gc_why());
	if ((!g_t.dA || g_t.back) && !dull) { if (ign && !bad) sim::fail("gradcheck-rejects", "right gradients of layer %d are rejected while layer %d is ignored: %.200s", f, g_t.layer, gc_why()); if (!ign && !bad && hits && f != g_t.layer) sim::fail("gradcheck-layer", "layer %d is said to be wrong, but it is layer %d", f, g_t.layer); }
	sim::probe(lax ? "allowed-error" : g_t.dA ? g_t.back ? "wrong-dLdA-alone" : "wrong-dLdA" : "wrong-dLdW"); if (!hits) sim::probe("never-hit"); g_t = Tamper();
	// zero gradients: accepted only if allowed
	sim::note(f); sim::note((uint64_t)bad); delete s;
}
// gradients that are zero: accepted only as far as the settings allow
static void t_zero() {
	typedef double R; typedef GSys<QFc, Gw<double>> S; Cfg c = draw_cfg(14); auto* s = new S(c); s->init_list(); GcArg a = draw_gc(c.n, false); a.skippable = sim::chance(.3); sim::context("zero gradients: %s %s batch=%d online=%d", QFc::name, c.str().c_str(), a.bs, a.obs);
	g_t = Tamper(); vec_len_t b = 1; if ((int)s->nn->init4fixedBatchFprop(*s->td, b)) sim::fail("setup", "initialisation failed");
	const int v = (int)sim::rnd(2), low = v ? 0 : 1; { auto& w = v ? s->a->h2.get_weights() : s->a->out.get_weights(); sim::Oracle g; std::fill(w.data(), w.data() + w.numel(), 0.); std::fill(w.data() + w.numel() - w.rows(), w.data() + w.numel(), .75); } // nothing below has an influence
	a.zero = sim::chance(.4) ? 0 : 100; a.zeroW = sim::chance(.5) ? 0 : 100; a.ign1 = sim::chance(.4); const bool may = a.zero && (a.zeroW || (v && a.ign1)); auto &x = s->td->train_x(), &y = s->td->train_y(); int f; const bool ok = gc_run(*s, a, x, y, &f); if (noise(ok)) { g_t = Tamper(); delete s; return; }
	if (may && !ok) sim::fail("gradcheck-rejects", "zero gradients of layer %d are rejected although allowed: %.200s", f, gc_why()); if (!may && ok) sim::fail("gradcheck-accepts", "zero gradients are accepted although none is allowed (%d%% of dL/dA, %d%% of dL/dW)", a.zero, a.zeroW); if (!ok && f != (*s->L)[low].idx) sim::fail("gradcheck-layer", "layer %d is said to have zero gradients, but it is layer %d", f, (*s->L)[low].idx);
	if (sim::chance(.6)) { math::smatrix<R> q; const bool wx = sim::chance(.5); if (wx) q.will_emulate_biases(); else q.dont_emulate_biases(); const int dr = sim::chance(.6) ? 0 : sim::chance(.5) ? 1 : -1, dc = dr ? (int)sim::rnd(2) : 1; if (!q.resize(c.n + dr, (wx ? c.xw : c.yw) + dc)) sim::fail("setup", "no memory"); { sim::Oracle g; for (int i = 0; i < (c.n + dr) * ((wx ? c.xw : c.yw) + dc); ++i) q.data()[i] = .5; } GcArg z = a; z.bs = z.obs = 1; const math::smatrix<R> &qx = x, &qy = y; if (gc_run(*s, z, wx ? q : qx, wx ? qy : q, &f)) sim::fail("gradcheck-accepts", "data of another size was accepted"); sim::probe("wrong-data"); }
	if (sim::chance(.5)) { GcArg z = a; z.bs = c.n + (int)sim::rng(1, 3); if (sim::chance(.6)) { z.bs = sim::chance(.5) ? a.bs : 0; z.obs = z.bs ? c.n + 1 : 1; } if (gc_run(*s, z, x, y, &f)) sim::fail("gradcheck-accepts", "a check of %d samples of %d succeeded", z.bs, c.n); }
	sim::probe(ok ? "zero-allowed" : "zero-refused"); sim::note(f); delete s;
}
// the check made from the callback of a training does not change the training
template<class S> struct GcCb { S* s; const GcArg* a; bool check; uint64_t seed; int* n; template<class T> bool operator()(T&& e) const noexcept { if (check) { int f; if (!gc_run(*s, *a, s->td->train_x(), s->td->train_y(), &f) && !noise(false)) sim::fail("gradcheck-rejects", "right gradients of layer %d are rejected during training: %.200s", f, gc_why()); } reseed(*s, seed + (uint64_t)++*n); (void)e; return true; } };
template<class A, class I, bool RND> static void t_twin() {
	typedef typename I::real_t R; typedef GSys<A, I> S; Cfg c = draw_cfg(12); c.onehot = A::onehot; c.epochs = (int)sim::rng(2, 3); TrainSpec sp = spec_of(c); sp.diverge = false; sp.evals = sim::chance(.7);
	GcArg a = draw_gc(c.n, RND); a.all = false; a.g0 = 1; a.g1 = 0; a.s0 = 2; a.s1 = 0; const int tb = sp.bs <= 0 || sp.bs > c.n ? c.n : sp.bs; a.bs = std::min(a.bs, tb); a.obs = std::min(a.obs, tb);
	sim::context("checked training: %s %s batch=%d online=%d%s", A::name, c.str().c_str(), a.bs, a.obs, a.force ? " forced seed" : ""); g_t = Tamper(); Log* l[2]; std::vector<R>* w[2]; const uint64_t seed = sim::rnd(100000); int n;
	for (int k = 0; k < 2; ++k) {
		auto* s = new S(c); s->init_list(); { sim::Oracle g; delete g_log; g_log = new Log; } n = 0; if ((int)s->train(sp, GcCb<S>{ s, &a, k == 1, seed, &n })) sim::fail("setup", "training failed"); l[k] = g_log; g_log = nullptr; { auto v = s->weights(); sim::Oracle g; w[k] = new std::vector<R>(v); } check_td<R>(*s->td, c); delete s; }
	same_logs(*l[0], *l[1], "gradcheck-training"); same_w(*w[0], *w[1]); sim::note_bytes(w[0]->data(), w[0]->size() * sizeof(R)); sim::probe("checked-training"); sim::Oracle g; for (int k = 0; k < 2; ++k) { delete l[k]; delete w[k]; }
}
#define SG(A, RND) static void g_##A() { t_accept<A, Gw<double>, RND>(); } SIM_SCENARIO(P24, gc_##A, g_##A, nullptr, 2)
SG(QFc, false) SG(QSm, true) SG(APh, false) SG(QPt, false) SG(QPo, false) SG(GNest, true)
SIM_SCENARIO(P24, zero, t_zero, nullptr, 2)
#define SW(A, RND) static void w_##A() { t_twin<A, Gw<double>, RND>(); } SIM_SCENARIO(P24, twin_##A, w_##A, nullptr, 2)
SW(QFc, false) SW(QSm, true) SW(APh, false) SW(QPo, false) SW(GNest, true)
static void ws_QPt() { t_twin<QPt, Gs<double>, false>(); } SIM_SCENARIO(P24, twins_QPt, ws_QPt, nullptr, 1)
