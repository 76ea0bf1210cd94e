// Complete networks for simulated trainings: architectures, data sets, recording inspector and observer.
#pragma once
#include <algorithm>
#include <cstring>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
#include <nntl/nntl.h>
using namespace nntl;

// ---- recorded history ------------------------------------------------------------------------------------
struct Report { int ds; int64_t batches; std::vector<std::vector<double>> act, y; double loss; };
struct Batch { std::vector<std::vector<double>> x, y; bool bias; };
struct Log {
	std::vector<Batch> batches; std::vector<int64_t> epoch_batches, epoch_first; std::vector<Report> reports; std::vector<double> losses;
	struct Step { const char* what; uint64_t h; }; std::vector<Step> steps; // fingerprints of the intermediate results
	int64_t bs = -1, fs = -1; int inits = 0, deinits = 0, starts = 0, ends = 0;
};
static Log* g_log;
template<class M> static std::vector<std::vector<double>> samples(const M& m) { // one vector per sample, whatever the layout, without biases
	std::vector<std::vector<double>> r; const bool row = m.bBatchInRow(); const int64_t n = row ? m.cols() : m.rows(), w = row ? m.rows() - (m.emulatesBiases() ? 1 : 0) : m.cols() - (m.emulatesBiases() ? 1 : 0);
	for (int64_t i = 0; i < n; ++i) { std::vector<double> v; for (int64_t j = 0; j < w; ++j) v.push_back((double)(row ? m.data()[i * m.rows() + j] : m.data()[j * m.rows() + i])); r.push_back(v); } return r;
}
template<class M> static bool biases_ok(const M& m) { const bool row = m.bBatchInRow(); const int64_t n = row ? m.cols() : m.rows(), w = row ? m.rows() : m.cols(); for (int64_t i = 0; i < n; ++i) if ((row ? m.data()[i * m.rows() + w - 1] : m.data()[(w - 1) * m.rows() + i]) != 1) return false; return true; }

template<class R> struct Rec : inspector::_impl::_base<R> {
	typedef math::smatrix<R> mtx;
	void train_epochBegin(const numel_cnt_t, const numel_cnt_t nb) const noexcept { if (!g_log) return; sim::Oracle g; g_log->epoch_batches.push_back(nb); g_log->epoch_first.push_back((int64_t)g_log->batches.size()); }
	void train_preFprop(const mtx& x) const noexcept { if (!g_log) return; sim::Oracle g; g_log->batches.push_back(Batch{ samples(x), {}, x.emulatesBiases() && biases_ok(x) }); }
	static void step(const char* what, const mtx& m) noexcept { if (!g_log) return; sim::Oracle g; uint64_t h = 1469598103934665603ull; const unsigned char* p = (const unsigned char*)m.data(); for (size_t i = 0, n = m.numel_no_bias() * sizeof(R); i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; g_log->steps.push_back(Log::Step{ what, h }); }
	void fprop_makePreActivations(const mtx& w, const mtx& a) const noexcept { step("weights of a forward pass", w); step("input of a forward pass", a); }
	void fprop_activations(const mtx& a) const noexcept { step("activations", a); }
	void fprop_preDropout(const mtx& a, const R, const mtx& m) const noexcept { step("activations before dropout", a); step("dropout random numbers", m); }
	void fprop_postDropout(const mtx& a, const mtx&) const noexcept { step("activations after dropout", a); }
	void bprop_dLdZ(const mtx& z) const noexcept { step("dL/dZ", z); }
	void bprop_dLdW(const mtx&, const mtx&, const mtx& w) const noexcept { step("dL/dW", w); }
	void apply_grad_begin(const mtx&, const mtx& d) const noexcept { step("gradient before the optimiser", d); }
	void apply_grad_end(const mtx& w) const noexcept { step("weights after an update", w); }
	template<typename YT> void train_preBprop(const math::smatrix<YT>& y) const noexcept { if (!g_log) return; sim::Oracle g; if (!g_log->batches.empty()) g_log->batches.back().y = samples(y); }
};
template<class R> struct Obs : i_training_observer<R> {
	typedef typename i_training_observer<R>::realmtx_t realmtx_t; typedef std::chrono::nanoseconds ns;
	template<class T, class C> bool init(numel_cnt_t, T&, const C&) noexcept { sim::Oracle g; if (g_log) ++g_log->inits; return true; }
	void deinit() noexcept { sim::Oracle g; if (g_log) ++g_log->deinits; }
	void report_results_begin(const data_set_id_t ds, const numel_cnt_t n) noexcept { sim::Oracle g; if (g_log) g_log->reports.push_back(Report{ (int)ds, n, {}, {}, 0 }); }
	template<class YT, class C> void report_results(const numel_cnt_t, const realmtx_t& a, const math::smatrix<YT>& y, const C&) noexcept { sim::Oracle g; if (g_log && !g_log->reports.empty()) { auto& r = g_log->reports.back(); for (auto& s : samples(a)) r.act.push_back(s); for (auto& s : samples(y)) r.y.push_back(s); } }
	void report_results_end(const R loss) noexcept { sim::Oracle g; if (g_log && !g_log->reports.empty()) g_log->reports.back().loss = (double)loss; }
	template<class T> void on_training_start(const T&, vec_len_t bs, vec_len_t fs, numel_cnt_t) noexcept { sim::Oracle g; if (g_log) { g_log->bs = bs; g_log->fs = fs; ++g_log->starts; } }
	void on_training_fragment_end(const numel_cnt_t, const R tr, const R te, const ns&) noexcept { sim::Oracle g; if (g_log) { g_log->losses.push_back((double)tr); g_log->losses.push_back((double)te); } }
	void on_training_end(const ns&) noexcept { sim::Oracle g; if (g_log) ++g_log->ends; }
};

// ---- configuration ---------------------------------------------------------------------------------------
struct Cfg {
	int n, m, xw, yw, bs, fs, epochs, h1, h2, tiles; bool onehot; uint64_t dseed, seed;
	int opt; double lr, mom, l1, l2, mn, lrd, dpa, addn; bool nest, ilr, mnb, full, evals, rot;
	std::string str() const { char b[400]; snprintf(b, sizeof b, "n=%d m=%d xw=%d yw=%d bs=%d fs=%d ep=%d h=%d,%d opt=%d lr=%g mom=%g%s l1=%g l2=%g mn=%g lrd=%g dpa=%g add=%g%s%s", n, m, xw, yw, bs, fs, epochs, h1, h2, opt, lr, mom, nest ? "n" : "", l1, l2, mn, lrd, dpa, addn, ilr ? " ilr" : "", full ? " full" : ""); return b; }
};
static inline uint64_t mixh(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x1234567; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
// feature j of sample id: feature 0 identifies the sample, features 1 and 2 are gates
static double xval(const Cfg& c, int id, int j) { if (j == 0) return (id + 1) / 256.0; uint64_t h = mixh(c.dseed + 77 * j, id); if (j < 3) return (double)(h % 2); return ((int)(h % 257) - 128) / 64.0; }
static double yval(const Cfg& c, int id, int j) { if (c.onehot) return (int)(mixh(c.dseed, id) % c.yw) == j ? 1.0 : 0.0; if (j == 0) return (id + 1) / 256.0; if (j == 1) return 1.0 - (id + 1) / 256.0; return (mixh(c.dseed + 13 * j, id) % 256) / 256.0; }
enum { TEST0 = 128 };
template<class TD> static bool fill_td(TD& td, const Cfg& c) {
	typedef typename TD::x_t R; typedef typename TD::y_t Y; math::smatrix_deform<R> x[2]; math::smatrix_deform<Y> y[2];
	for (int s = 0; s < 2; ++s) {
		const int n = s ? c.m : c.n, b = s ? TEST0 : 0; x[s].will_emulate_biases(); y[s].dont_emulate_biases(); if (!x[s].resize(n, c.xw) || !y[s].resize(n, c.yw)) return false; sim::Oracle g;
		for (int i = 0; i < n; ++i) { for (int j = 0; j < c.xw; ++j) x[s].data()[(size_t)j * n + i] = (R)xval(c, b + i, j); for (int j = 0; j < c.yw; ++j) y[s].data()[(size_t)j * n + i] = (Y)yval(c, b + i, j); }
	}
	return td.absorb(std::move(x[0]), std::move(y[0]), std::move(x[1]), std::move(y[1]));
}
static Cfg draw_cfg(int maxn = 24) {
	Cfg c; memset(&c, 0, sizeof c); c.n = (int)sim::rng(2, maxn); c.m = (int)sim::rng(1, sim::chance(.3) ? maxn + 4 : 10); c.xw = (int)sim::rng(5, 8); c.yw = (int)sim::rng(2, 3); c.dseed = sim::rnd(1000000); c.seed = sim::rnd(1000000) + 1;
	c.bs = sim::chance(.2) ? 0 : (int)sim::rng(1, c.n); c.fs = 0; if (c.bs && sim::chance(.5)) c.fs = (int)sim::rng(c.bs, std::max(c.n, c.m)); if (c.fs && c.fs < c.bs) c.fs = c.bs;
	c.epochs = (int)sim::rng(1, 2); c.h1 = (int)sim::rng(2, 5); c.h2 = (int)sim::rng(2, 4); c.tiles = 2;
	c.opt = (int)sim::rnd(9); c.lr = .03; c.mom = sim::chance(.35) ? .5 : 0; c.nest = sim::chance(.5); c.l1 = sim::chance(.2) ? .01 : 0; c.l2 = sim::chance(.25) ? .02 : 0; c.mn = sim::chance(.2) ? 1.5 : 0; c.mnb = sim::chance(.5); c.ilr = sim::chance(.2); c.lrd = sim::chance(.15) ? .7 : 1; c.dpa = sim::chance(.7) ? .6 : 1; c.addn = sim::chance(.7) ? .1 : 0; c.full = sim::chance(.8); c.evals = sim::chance(.6); return c;
}

// ---- interfaces and architectures --------------------------------------------------------------------------
template<class R> struct Iw : d_int_nI<R> { typedef Rec<R> iInspect_t; };
template<class R> struct Is { typedef R real_t; typedef threads::Workers<R, numel_cnt_t, threads::std_sync_primitives> iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef math::MathN<R, iThreads_t, iMemmgr_t> iMath_t; typedef rng::AFRand_mt<R, AFog::CRandomSFMT0, iThreads_t> iRng_t; typedef Rec<R> iInspect_t; };

template<class I> struct Base { typedef I intf; typedef typename I::real_t R; typedef grad_works<I> GW; typedef layer_input<I> In; };
struct AFc { static constexpr const char* name = "fc-fc"; static constexpr bool onehot = false; static constexpr bool rnd_fprop = false;
	template<class I> struct T : Base<I> { typedef Base<I> B; typedef typename B::R R; typename B::In in; LFC<activation::sigm<R, weights_init::XavierFour>, typename B::GW> h1; LFC<activation::leaky_relu_100<R>, typename B::GW> h2; layer_output<activation::sigm_quad_loss<R, weights_init::Martens_SI_sigm<2>>, typename B::GW> out; layers<decltype(in), decltype(h1), decltype(h2), decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), h1(c.h1, (R)c.lr), h2(c.h2, (R)c.lr), out(c.yw, (R)c.lr), lp(in, h1, h2, out) {} }; };
struct ADo { static constexpr const char* name = "dropout-softmax"; static constexpr bool onehot = true;
	template<class I> struct T : Base<I> { typedef Base<I> B; typedef typename B::R R; typename B::In in; LFC_DO<activation::softsign<R>, typename B::GW> h1; LFC_DO<activation::selu<R>, typename B::GW> h2; layer_output<activation::softmax_xentropy_loss<R, weights_init::XavierFour>, typename B::GW> out; layers<decltype(in), decltype(h1), decltype(h2), decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), h1(c.h1, (R)c.lr), h2(c.h2, (R)c.lr), out(c.yw, (R)c.lr), lp(in, h1, h2, out) { h1.dropoutPercentActive((R)c.dpa); h2.dropoutPercentActive((R)c.dpa); } }; };
struct APh { static constexpr const char* name = "horizontal-vertical pack"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef Base<I> B; typedef typename B::R R; typename B::In in; typedef LFC<activation::softsigm<R>, typename B::GW> L; L a, b1, b2; LI<I> id; LPV<L, L> v; LPH<PHL<L>, PHL<LPV<L, L>>, PHL<LI<I>>> ph; layer_output<activation::softsigm_quad_loss<R>, typename B::GW> out; layers<decltype(in), decltype(ph), decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), a(c.h1, (R)c.lr), b1(c.h2, (R)c.lr), b2(c.h1, (R)c.lr), v(b1, b2), ph(make_PHL(a, 0, 3), make_PHL(v, 1, (neurons_count_t)(c.xw - 1)), make_PHL(id, 2, 2)), out(c.yw, (R)c.lr), lp(in, ph, out) {} }; };
struct APt { static constexpr const char* name = "tiled pack"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef Base<I> B; typedef typename B::R R; typename B::In in; typedef LFC<activation::elu<R>, typename B::GW> L; L u, t; LPT<L> pt; layer_output<activation::sigm_xentropy_loss<R, weights_init::XavierFour>, typename B::GW> out; layers<decltype(in), decltype(u), decltype(pt), decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), u((neurons_count_t)(2 * c.tiles), (R)c.lr), t(c.h1, (R)c.lr), pt(t, c.tiles), out(c.yw, (R)c.lr), lp(in, u, pt, out) {} }; };
struct APo { static constexpr const char* name = "gated optional pack"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef Base<I> B; typedef typename B::R R; typename B::In in; typedef LFC<activation::softsigm<R>, typename B::GW> L; LIGf<500000, true, I> gate; L a, b1, b2; LPVt<std::tuple<L&, L&>> v; LPHOt<true, std::tuple<PHL<LIGf<500000, true, I>>, PHL<L>, PHL<LPVt<std::tuple<L&, L&>>>>> po; layer_output<activation::sigm_quad_loss<R, weights_init::Martens_SI_sigm<2>>, typename B::GW> out; layers<decltype(in), decltype(po), decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), a(c.h1, (R)c.lr), b1(c.h2, (R)c.lr), b2(c.h1, (R)c.lr), v(std::tie(b1, b2)), po(std::make_tuple(make_PHL(gate, 1, 2), make_PHL(a, 0, 1), make_PHL(v, 3, (neurons_count_t)(c.xw - 3)))), out(c.yw, (R)c.lr), lp(in, po, out) {} }; };
struct APa { static constexpr const char* name = "penalised activations"; static constexpr bool onehot = false;
	template<class I> struct T : Base<I> { typedef Base<I> B; typedef typename B::R R; typename B::In in; LFC_PA<std::tuple<loss_addendum::DeCov<R, true>, loss_addendum::L1<R>>, activation::softsign<R>, typename B::GW> h1; LFC_PA_DO<std::tuple<loss_addendum::L2<R>>, activation::sigm<R, weights_init::XavierFour>, typename B::GW> h2; layer_output<activation::sigm_quad_loss<R, weights_init::Martens_SI_sigm<2>>, typename B::GW> out; layers<decltype(in), decltype(h1), decltype(h2), decltype(out)> lp;
		T(const Cfg& c) : in(c.xw), h1(c.h1, (R)c.lr), h2(c.h2, (R)c.lr), out(c.yw, (R)c.lr), lp(in, h1, h2, out) { h1.template addendum<0>().scale((R)c.addn); h1.template addendum<1>().scale((R)c.addn); h2.template addendum<0>().scale((R)c.addn); h2.dropoutPercentActive((R)c.dpa); } }; };

struct GwSet { const Cfg& c; template<class L> std::enable_if_t<layer_has_gradworks<L>::value> operator()(L& l) const noexcept { typedef std::decay_t<decltype(l.get_gradWorks())> G; typedef typename L::real_t R; auto& g = l.get_gradWorks(); g.set_type((typename G::GradType)c.opt); if (c.mom > 0) { if (c.nest) g.nesterov_momentum((R)c.mom); else g.momentum((R)c.mom); } g.L1((R)c.l1); g.L2((R)c.l2); g.max_norm2((R)c.mn, c.mnb); g.numeric_stabilizer((R)1e-4); if (c.ilr) g.set_ILR((R).9, (R)1.1, (R).5, (R)1.5); if (c.lrd < 1) g.LRDropoutPercentActive((R)c.lrd); } template<class L> std::enable_if_t<!layer_has_gradworks<L>::value> operator()(L&) const noexcept {} };

// ---- a system under test: data, layers and network ----------------------------------------------------------
struct TrainSpec { int bs, fs, epochs; bool full, evals, reinit, deinit, diverge; };
static TrainSpec spec_of(const Cfg& c) { return TrainSpec{ c.bs, c.fs, c.epochs, c.full, c.evals, true, false, true }; }
struct NoCb { template<class T> bool operator()(T) const noexcept { return true; } };
template<class A, class I> struct Sys {
	typedef typename I::real_t R; typedef typename A::template T<I> Arch; typedef nnet<decltype(Arch::lp)> NN; typedef typename NN::ErrorCode EC; typedef inmem_train_data<R> TD;
	Cfg c; TD* td; Arch* a; NN* nn; bool hurt = false; // allocations may fail inside the library's call
	Sys(const Cfg& _c) : c(_c) {
		global_denormalized_floats_mode(); // the constants below are rounded in the same mode every time
		td = new TD; if (!fill_td(*td, c)) sim::fail("setup", "data set rejected");
		a = new Arch(c); a->lp.for_each_layer_exc_input(GwSet{ c }); nn = new NN(a->lp); nn->get_iRng().seed64((int64_t)c.seed);
	}
	~Sys() { delete nn; delete a; delete td; }
	template<class CB> EC train(const TrainSpec& s, CB&& cb) {
		nnet_train_opts<R, Obs<R>> o(s.epochs, s.evals); o.batchSize(s.bs); if (s.fs) o.maxFpropSize(s.fs); o.calcFullLossValue(s.full).bForceReinitTD(s.reinit).ImmediatelyDeinit(s.deinit); if (!s.diverge) o.noDivergenceCheck();
		if (hurt) sim::alloc_faults(true); const EC ec = nn->train(*td, o, cb); if (hurt) sim::alloc_faults(false); return ec;
	}
	EC train(const TrainSpec& s) { return train(s, NoCb()); }
	EC train() { return train(spec_of(c)); }
	std::vector<R> weights() { std::vector<R>* w; { sim::Oracle g; w = new std::vector<R>; } a->lp.for_each_layer_exc_input([w](auto& l) noexcept { if constexpr (layer_has_gradworks<std::decay_t<decltype(l)>>::value) { sim::Oracle g; auto& m = l.get_weights(); w->insert(w->end(), m.data(), m.data() + m.numel()); } }); sim::Oracle g; std::vector<R> r(*w); delete w; return r; }
	// gives the layers the weights of the list (all of them must have had weights, e.g. a network that was trained)
	void poke_weights(const std::vector<R>& v) { size_t o = 0; a->lp.for_each_layer_exc_input([&](auto& l) noexcept { if constexpr (layer_has_gradworks<std::decay_t<decltype(l)>>::value) { sim::Oracle g; auto& m = l.get_weights(); std::copy(v.begin() + o, v.begin() + o + m.numel(), m.data()); o += m.numel(); } }); }
	// hands ready-made weights to layers that have none yet
	template<class Src> void adopt_weights(Src& s) {
		std::vector<typename math::smatrix<R>*>* ms; { sim::Oracle g; ms = new std::vector<typename math::smatrix<R>*>; }
		s.a->lp.for_each_layer_exc_input([&](auto& l) noexcept { if constexpr (layer_has_gradworks<std::decay_t<decltype(l)>>::value) { sim::Oracle g; ms->push_back(&l.get_weights()); } }); size_t i = 0;
		a->lp.for_each_layer_exc_input([&](auto& l) noexcept { if constexpr (layer_has_gradworks<std::decay_t<decltype(l)>>::value) { math::smatrix<R> w; if (!(*ms)[i++]->clone_to(w) || !l.set_weights(std::move(w))) sim::fail("setup", "weights rejected"); } }); sim::Oracle g; delete ms;
	}
};
template<class R> static int64_t first_diff(const std::vector<R>& a, const std::vector<R>& b) { if (a.size() != b.size()) return -2; for (size_t i = 0; i < a.size(); ++i) if (memcmp(&a[i], &b[i], sizeof(R))) return (int64_t)i; return -1; }

// ---- checks of delivered data ------------------------------------------------------------------------------
static int id_of(double x0) { double d = x0 * 256.0 - 1.0; int i = (int)d; return (double)i == d && i >= 0 ? i : -1; }
template<class R> static void check_sample(const Cfg& c, const std::vector<double>* x, const std::vector<double>* y, int id, const char* where) {
	if (x) { if ((int)x->size() != c.xw) sim::fail("batch-shape", "%s: sample of width %zu instead of %d", where, x->size(), c.xw); for (int j = 0; j < c.xw; ++j) if ((*x)[j] != (double)(R)xval(c, id, j)) sim::fail("batch-data", "%s: feature %d of sample %d is %g instead of %g", where, j, id, (*x)[j], (double)(R)xval(c, id, j)); }
	if (y) { if ((int)y->size() != c.yw) sim::fail("batch-shape", "%s: target of width %zu instead of %d", where, y->size(), c.yw); for (int j = 0; j < c.yw; ++j) if ((*y)[j] != (double)(R)yval(c, id, j)) sim::fail("batch-pairing", "%s: target %d of sample %d is %g instead of %g", where, j, id, (*y)[j], (double)(R)yval(c, id, j)); }
}
template<class R0 = void, class TD> static void check_td(const TD& td, const Cfg& c) { typedef typename TD::x_t R; // the data set itself is as it was given
	sim::Oracle g;
	for (int s = 0; s < 2; ++s) {
		auto X = samples(td.X(s)), Y = samples(td.Y(s)); const int n = s ? c.m : c.n; if ((int)X.size() != n || (int)Y.size() != n) sim::fail("dataset-changed", "set %d has %zu/%zu samples instead of %d", s, X.size(), Y.size(), n);
		if (!td.X(s).emulatesBiases() || !biases_ok(td.X(s))) sim::fail("dataset-changed", "biases of set %d were changed", s);
		for (int i = 0; i < n; ++i) check_sample<R>(c, &X[i], &Y[i], (s ? TEST0 : 0) + i, s ? "test set" : "training set");
	}
}
// ---- comparison of recorded histories ----------------------------------------------------------------------
[[maybe_unused]] static void same_logs(const Log& a, const Log& b, const char* cls = "not-reproducible") {
	sim::Oracle g; if (a.batches.size() != b.batches.size()) sim::fail(cls, "%zu and %zu training batches", a.batches.size(), b.batches.size());
	for (size_t i = 0; i < a.batches.size(); ++i) if (a.batches[i].x != b.batches[i].x || a.batches[i].y != b.batches[i].y) sim::fail(cls, "training batch %zu differs", i);
	for (size_t i = 0; i < std::min(a.steps.size(), b.steps.size()); ++i) if (a.steps[i].h != b.steps[i].h) sim::fail(cls, "%s differ at step %zu of %zu (after: %s)", a.steps[i].what, i, a.steps.size(), i ? a.steps[i - 1].what : "start");
	if (a.reports.size() != b.reports.size()) sim::fail(cls, "%zu and %zu evaluations", a.reports.size(), b.reports.size());
	for (size_t r = 0; r < a.reports.size(); ++r) { auto &p = a.reports[r], &q = b.reports[r]; for (size_t i = 0; i < p.act.size(); ++i) if (first_diff(p.act[i], q.act[i]) != -1) sim::fail(cls, "prediction for sample %zu in evaluation %zu differs", i, r); if (memcmp(&p.loss, &q.loss, sizeof(double))) sim::fail(cls, "loss of evaluation %zu differs: %.17g and %.17g", r, p.loss, q.loss); }
	if (first_diff(a.losses, b.losses) != -1) sim::fail(cls, "reported losses differ");
}
