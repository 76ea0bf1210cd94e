// P22: normalisation of data sets; P23: initialisation of weights (static schemes and LSUV)
#include "nets.h"
#include <nntl/train_data/transf_train_data.h>
#include <nntl/weights_init/LsuvExt.h>
namespace sim { std::ostream nullout(nullptr); }
typedef std::vector<std::vector<double>> Rows;
template<class I> struct Env { // everything a data set needs besides itself
	typename I::iMath_t* m; typename I::iRng_t* r; typename I::iInspect_t* ins; bool b; _impl::common_nn_data<I>* cd;
	Env(uint64_t seed) { global_denormalized_floats_mode(); m = new typename I::iMath_t; r = new typename I::iRng_t; r->init_ithreads(m->ithreads()); r->seed64((int64_t)seed); ins = new typename I::iInspect_t; b = false; cd = new _impl::common_nn_data<I>(*m, *r, *ins, b); }
	~Env() { delete cd; delete ins; delete r; delete m; }
};
// makes k numbered variants of every stored sample
template<class R> struct Rep : _i_td_transformer<R, R> {
	typedef _i_td_transformer<R, R> B; using typename B::const_TD_stor_t; using typename B::x_mtx_t; using typename B::y_mtx_t; typedef math::smatrix_deform<R> md; int k; md bx, by; int64_t maxb = 0; Rep(int _k) : k(_k) {}
	vec_len_t samplesInBaseSample() const noexcept { return k; } vec_len_t xWidth(const_TD_stor_t& t) const noexcept { return t.train_x().sample_size(); } vec_len_t yWidth(const_TD_stor_t& t) const noexcept { return t.train_y().sample_size(); }
	numel_cnt_t base_dataset_samples_count(const_TD_stor_t& t, data_set_id_t d) const noexcept { return t.X(d).batch_size(); }
	void deinit() noexcept { bx.clear(); by.clear(); maxb = 0; }
	template<class M> bool init(M&, const_TD_stor_t& t, vec_len_t bb) noexcept { bx.will_emulate_biases(); by.dont_emulate_biases(); maxb = bb; return bx.resize((vec_len_t)(bb * k), xWidth(t)) && by.resize((vec_len_t)(bb * k), yWidth(t)); }
	template<class M> static void preinit_iMath(M&) noexcept {}
	void shape(int bb) { if (bb > maxb || bb < 1) sim::fail("batch-size", "transformer prepared for %ld stored samples is asked for %d", (long)maxb, bb); bx.deform_batch_size_with_biases(bb * k); by.deform_batch_size(bb * k); }
	void put(const_TD_stor_t& t, int set, int row, int src, unsigned ex = 0) { sim::Oracle g; auto& X = t.X(set); auto& Y = t.Y(set); for (int r = 0; r < k; ++r) { for (int j = 0; j < X.cols_no_bias(); ++j) bx.data()[(size_t)j * bx.rows() + row * k + r] = X.data()[(size_t)j * X.rows() + src] * (R)(1 + r) - (R)r * 2; for (int j = 0; j < Y.cols(); ++j) by.data()[(size_t)j * by.rows() + row * k + r] = Y.data()[(size_t)j * Y.rows() + src] + (R)(4 * r); } }
	template<class CD> void next_epoch(const_TD_stor_t&, const numel_cnt_t, const CD&, const vec_len_t bb, x_mtx_t** x, y_mtx_t** y) noexcept { shape(bb); *x = &bx; *y = &by; }
	template<class CD> void next_batch(const_TD_stor_t& t, const numel_cnt_t, const CD&, const vec_len_t* ids, const vec_len_t bb) noexcept { for (int i = 0; i < bb; ++i) put(t, 0, i, ids[i]); }
	template<class CD> void walk(const_TD_stor_t&, const data_set_id_t, const CD&, const vec_len_t bb, const unsigned ex, x_mtx_t** x, y_mtx_t** y) noexcept { shape(bb); *x = (ex & 1) ? nullptr : &bx; *y = (ex & 2) ? nullptr : &by; }
	template<class CD> void walk_next(const_TD_stor_t& t, const data_set_id_t d, const numel_cnt_t, const CD&, const vec_len_t bb, const vec_len_t ofs, const unsigned) noexcept { shape(bb); for (int i = 0; i < bb; ++i) put(t, d, i, ofs + i); }
};
// data of one column: constant, close to normal or anything; every value fits a float
static double col_val(uint64_t seed, int kind, int id, double sc, double of) {
	const uint64_t h = mixh(seed, id); if (kind == 0) return of; if (kind == 1) return 0; if (kind == 2) return (float)(of * .1); if (kind == 3) return (id & 1) ? 1 : -1;
	double u = 0; for (int i = 0; i < 4; ++i) u += (double)((h >> (16 * i)) & 0xffff) / 65536.0 - .5; if (kind == 4 && h % 16 < 13) return of; return (float)(u * sc + of);
}
template<class TD> static bool fill_cols(TD& td, const Cfg& c, const std::vector<int>& kind, const std::vector<double>& sc, const std::vector<double>& of) {
	typedef typename TD::x_t R; math::smatrix_deform<R> x[2], y[2];
	for (int s = 0; s < 2; ++s) { const int n = s ? c.m : c.n, b = s ? TEST0 : 0; x[s].will_emulate_biases(); y[s].dont_emulate_biases(); if (!x[s].resize(n, c.xw) || !y[s].resize(n, c.yw)) return false; sim::Oracle g;
		for (int i = 0; i < n; ++i) { for (int j = 0; j < c.xw; ++j) x[s].data()[(size_t)j * n + i] = (R)col_val(c.dseed + 31 * j, kind[j], b + i, sc[j], of[j]); for (int j = 0; j < c.yw; ++j) y[s].data()[(size_t)j * n + i] = (R)yval(c, b + i, j); } }
	return td.absorb(std::move(x[0]), std::move(y[0]), std::move(x[1]), std::move(y[1]));
}
struct St { double mean, sd; bool constant; double mx; };
// over the first `used` rows; col < 0: over all columns
static St stats(const Rows& r, int used, int col) { long double s = 0; int64_t n = 0; double lo = 1e300, hi = -1e300, mx = 0; for (int i = 0; i < used; ++i) for (int j = col < 0 ? 0 : col; j < (col < 0 ? (int)r[i].size() : col + 1); ++j) { s += r[i][j]; ++n; lo = std::min(lo, r[i][j]); hi = std::max(hi, r[i][j]); mx = std::max(mx, std::fabs(r[i][j])); }
	const long double m = s / n; long double v = 0; for (int i = 0; i < used; ++i) for (int j = col < 0 ? 0 : col; j < (col < 0 ? (int)r[i].size() : col + 1); ++j) v += (r[i][j] - m) * (r[i][j] - m); return St{ (double)m, (double)std::sqrt((double)(v / (n - 1))), lo == hi, mx }; }
struct NS { double epsS, tS, tC, eS, eC; bool bS, bC, cw; int used; };
// the rows of all sets before and after; bit-identical if nothing had to be done
template<class R> static bool check_norm(const NS& s, const Rows* before, const Rows* after, bool ok, const char* where) {
	sim::Oracle g; const double eps = sizeof(R) == 4 ? 2e-4 : 1e-9, noise = s.epsS * (8 + s.used * .5); const int w = (int)before[0][0].size(); int todo = 0, touched = 0; bool sure = true; std::vector<double> sc(w), of(w);
	for (int k = 0; k < (s.cw ? w : 1); ++k) {
		const int col = s.cw ? k : -1; const St a = stats(before[0], s.used, col), b = stats(after[0], s.used, col); const bool inS = std::fabs(a.sd - s.tS) < s.eS * .99, inC = std::fabs(a.mean - s.tC) < s.eC * .99, outS = std::fabs(a.sd - s.tS) > s.eS * 1.01, outC = std::fabs(a.mean - s.tC) > s.eC * 1.01;
		if (!a.constant && (noise * a.mean * a.mean > .01 * a.sd * a.sd || (sizeof(R) == 4 ? 6e-8 : 1.1e-16) * std::fabs(a.mean) > .1 * eps * a.sd)) { sim::probe("not_measurable"); return false; } // the deviation is lost in rounding
		const double mt = b.constant ? 0 : noise * b.mean * b.mean / std::max(b.sd, 1e-30);
		const bool needS = s.bS && !a.constant && outS, needC = s.bC && outC; if (needS || needC) ++todo; if (!((inS || outS) && (inC || outC))) sure = false;
		double S, O;
		if (ok || !todo) {
			if (ok && s.bS && !a.constant && std::fabs(b.sd - s.tS) > s.eS * 1.01 + eps + mt) sim::fail("norm-scale", "%s: column %d has a deviation of %.9g instead of %g +- %g (was %.9g)", where, col, b.sd, s.tS, s.eS, a.sd);
			if (ok && s.bC && std::fabs(b.mean - s.tC) > s.eC * 1.01 + eps * (1 + b.mx)) sim::fail("norm-mean", "%s: column %d has a mean of %.9g instead of %g +- %g (was %.9g)", where, col, b.mean, s.tC, s.eC, a.mean);
			S = !s.bS || a.constant || (inS && !needC && sure) ? 1 : a.sd > 0 ? b.sd / a.sd : 1; O = s.bC ? b.mean - S * a.mean : 0;
			if (!needS && !needC && inS && inC) { S = 1; O = 0; }
			for (int j = s.cw ? k : 0; j < (s.cw ? k + 1 : w); ++j) { sc[j] = S; of[j] = O; }
		}
	}
	if (!ok && todo) sim::fail("norm-failed", "%s: %d column(s) were not normalised", where, todo);
	for (int set = 0; set < 2; ++set) { if (before[set].size() != after[set].size()) sim::fail("norm-data", "%s: set %d has %zu instead of %zu samples", where, set, after[set].size(), before[set].size());
		for (size_t i = 0; i < before[set].size(); ++i) for (int j = 0; j < w; ++j) { const double x = before[set][i][j], y = after[set][i][j], e = sc[j] * x + of[j]; if (sc[j] == 1 && of[j] == 0 ? x != y : !(std::fabs(y - e) <= eps * (std::fabs(sc[j] * x) + std::fabs(of[j]) + 1))) sim::fail("norm-data", "%s: set %d sample %zu feature %d: %.9g became %.9g, not %.9g like the others (x * %.9g + %.9g)", where, set, i, j, x, y, e, sc[j], of[j]); if (x != y) ++touched; } }
	sim::probe(todo ? ok ? "normalised" : "refused" : "left_alone"); return true;
}
template<class TD, class CD> static void collect(TD& td, CD& cd, int bs, Rows* X, Rows* Y) { // everything the sets deliver
	for (int set = 0; set < 2; ++set) { const auto nb = td.walk_over_set(set, cd, bs, 0); { sim::Oracle g; X[set].clear(); Y[set].clear(); } for (int64_t b = 0; b < nb; ++b) { td.next_subset(b, cd); sim::Oracle g; if (!biases_ok(td.batchX())) sim::fail("norm-data", "biases of set %d are not ones", set); auto x = samples(td.batchX()), y = samples(td.batchY()); X[set].insert(X[set].end(), x.begin(), x.end()); Y[set].insert(Y[set].end(), y.begin(), y.end()); } }
}
template<class I, class S, bool TR> static void t_norm() {
	typedef typename I::real_t R; typedef Rep<R> T; typedef std::conditional_t<TR, transf_train_data<T>, inmem_train_data<R>> TD;
	Cfg c = draw_cfg(sim::chance(.3) ? 60 : 24); c.n = std::max(c.n, 3); c.onehot = false; auto* e = new Env<I>(c.seed); auto& cd = *e->cd; std::vector<int>* kind; std::vector<double>*sc, *of; { sim::Oracle g; kind = new std::vector<int>(c.xw); sc = new std::vector<double>(c.xw); of = new std::vector<double>(c.xw); }
	const bool mild = sim::chance(.6); for (int j = 0; j < c.xw; ++j) { (*kind)[j] = sim::chance(.6) ? 5 : (int)sim::rnd(5); static const double m[] = { .25, 1, 3, 10, 40 }; (*sc)[j] = m[sim::rnd(5)]; (*of)[j] = sim::chance(.3) ? 0 : (double)sim::rng(-8, 8) * (mild ? .5 : 3); }
	const int k = TR ? (int)sim::rng(1, 3) : 1; T* tf = nullptr; inmem_train_data_stor<R, R>* stor = nullptr; TD* td;
	if constexpr (TR) { stor = new inmem_train_data_stor<R, R>; if (!fill_cols(*stor, c, *kind, *sc, *of)) sim::fail("setup", "data set rejected"); tf = new T(k); td = new TD(*tf, *stor); } else { td = new TD; if (!fill_cols(*td, c, *kind, *sc, *of)) sim::fail("setup", "data set rejected"); }
	typename TD::template NormalizerF_tpl<S, utils::mtx2Normal::_FNorm_stats_var_mean<true>>::NormalizationSettings_t st; const int N = c.n * k, big = std::max(c.n, c.m) * k;
	static const double ts[] = { 1, .5, 2 }, tc[] = { 0, 0, 1, -.5 }; st.targetScale = (S)ts[sim::rnd(3)]; st.targetCentral = (S)tc[sim::rnd(4)]; if (sim::chance(.3)) { st.ScaleTolerance = (S).1; st.CentralTolerance = (S).2; } st.bCentralNormalize = sim::chance(.8); st.bScaleNormalize = sim::chance(.8); st.bVerbose = sim::chance(.5); st.bColumnwise = sim::chance(.6);
	if (sim::chance(.5)) st.batchSize = (vec_len_t)(k * sim::rng(1, c.n)); if (sim::chance(.35)) st.batchCount = (vec_len_t)sim::rng(1, 4);
	const int ws = (int)sim::rng(1, std::max(c.n, c.m)) * k, pre = (int)sim::rnd(3); const int by = st.batchSize > 0 ? std::min((int)st.batchSize, N) : pre == 2 ? std::min(ws, N) : N; int nb = (N + by - 1) / by; if (st.batchCount) nb = std::min(nb, (int)st.batchCount); int used = std::min(N, nb * by); if (used < 2) { st.batchCount = 0; used = N; }
	std::string* kinds; { sim::Oracle g; kinds = new std::string; for (int j = 0; j < c.xw; ++j) { char b[64]; snprintf(b, sizeof b, " %d:%g:%g", (*kind)[j], (*sc)[j], (*of)[j]); *kinds += b; } }
	sim::context("%s%d variants %s mode scale %d/%g central %d/%g batches %d x %d used %d of %s; columns%s", sizeof(R) == 4 ? "float " : "double ", k, st.bColumnwise ? "columns" : "whole", (int)st.bScaleNormalize, (double)st.targetScale, (int)st.bCentralNormalize, (double)st.targetCentral, (int)st.batchSize, (int)st.batchCount, used, c.str().c_str(), kinds->c_str());
	NS ns{ sizeof(S) == 4 ? 6e-8 : 1.1e-16, (double)st.targetScale, (double)st.targetCentral, (double)st.ScaleTolerance, (double)st.CentralTolerance, st.bScaleNormalize, st.bCentralNormalize, st.bColumnwise, used };
	Rows* D; { sim::Oracle g; D = new Rows[8]; }
	auto prep = [&](vec_len_t f) { if (td->init4inference(*e->m, f) != TD::nnet_errors_t::Success || !e->m->init()) sim::fail("setup", "data set refused"); cd.deinit(); cd.init(f, 0); cd.set_mode_and_batch_size(false, f); };
	prep(ws); collect(*td, cd, -1, D, D + 2); auto before = [&] { td->deinit4all(); if (pre) prep((vec_len_t)(pre == 1 ? big : ws)); }; before();
	bool ok; if constexpr (TR) ok = td->template normalize_data<S>(cd, st); else ok = td->template normalize_data<S>(cd, st);
	td->deinit4all(); prep(ws); collect(*td, cd, -1, D + 4, D + 6); { sim::Oracle g; for (int s = 0; s < 2; ++s) if (D[2 + s] != D[6 + s]) sim::fail("norm-data", "targets of set %d were changed", s); }
	const bool exact = check_norm<R>(ns, D, D + 4, ok, "first"); { sim::Oracle g; for (auto& r : D[4]) sim::note_bytes(r.data(), r.size() * 8); }
	if (sim::chance(.5)) { // again: nothing to do for plain data, the same result for transformed
		before(); bool ok2; ok2 = td->template normalize_data<S>(cd, st); td->deinit4all(); prep(ws); collect(*td, cd, -1, D + 2, D + 6); sim::Oracle g; if (exact) for (int s = 0; s < 2; ++s) if (D[2 + s] != D[4 + s]) sim::fail("norm-data", "a second normalisation changed set %d", s); if (TR && exact && ok2 != ok) sim::fail("norm-failed", "the second normalisation returned %d", (int)ok2); sim::probe("twice"); }
	if (TR) { // training batches are normalised, too (targets identify the samples)
		td->deinit4all(); vec_len_t f = 0, b = (vec_len_t)(k * sim::rng(1, c.n)); bool mb; if (td->init4train(*e->m, f, b, &mb) != TD::nnet_errors_t::Success || !e->m->init()) sim::fail("setup", "data set refused"); cd.deinit(); cd.init(f, b); cd.set_mode_and_batch_size(true, b); const auto nbt = td->on_next_epoch(0, cd);
		for (int64_t i = 0; i < nbt; ++i) { td->on_next_batch(i, cd); sim::Oracle g; auto x = samples(td->batchX()), y = samples(td->batchY()); if (!biases_ok(td->batchX())) sim::fail("norm-data", "biases of a training batch are not ones"); for (size_t q = 0; q < x.size(); ++q) { size_t at = D[4].size(); for (size_t z = 0; z < D[4].size(); ++z) if (D[6][z] == y[q]) { at = z; break; } if (at == D[4].size()) sim::fail("norm-data", "training batch row %zu has an unknown target", q); if (D[4][at] != x[q]) sim::fail("norm-data", "training batch %ld row %zu (sample %zu) differs from the normalised sample: feature 1 is %.9g instead of %.9g", (long)i, q, at, x[q][1], D[4][at][1]); } }
		if constexpr (TR) { td->reset_normalization(); td->deinit4all(); prep(ws); collect(*td, cd, -1, D + 4, D + 6); sim::Oracle g; for (int s = 0; s < 2; ++s) if (D[s] != D[4 + s]) sim::fail("norm-data", "set %d is not as it was after normalisation was switched off", s); } }
	{ sim::Oracle g; delete[] D; delete kinds; delete kind; delete sc; delete of; } td->deinit4all(); delete td; delete tf; delete stor; delete e;
}
static void n_f() { t_norm<Iw<float>, float, false>(); } SIM_SCENARIO(P22, norm_f, n_f, nullptr, 2)
static void n_fd() { t_norm<Iw<float>, double, false>(); } SIM_SCENARIO(P22, norm_fd, n_fd, nullptr, 2)
static void n_d() { t_norm<Is<double>, double, false>(); } SIM_SCENARIO(P22, norm_d, n_d, nullptr, 2)
static void nt_f() { t_norm<Iw<float>, float, true>(); } SIM_SCENARIO(P22, norm_transf_f, nt_f, nullptr, 1)
static void nt_fd() { t_norm<Is<float>, double, true>(); } SIM_SCENARIO(P22, norm_transf_fd, nt_fd, nullptr, 1)

// ---- P23: static schemes ----------------------------------------------------------------------------------------
struct Mom { double mean, sd, mx; };
static Mom moments(const std::vector<double>& v) { long double s = 0, q = 0; double mx = 0; for (double x : v) { s += x; mx = std::max(mx, std::fabs(x)); } const long double m = s / v.size(); for (double x : v) q += (x - m) * (x - m); return Mom{ (double)m, (double)std::sqrt((double)(q / v.size())), mx }; }
static void gauss(const char* what, const std::vector<double>& v, double sd) { // eight standard errors: never exceeded by chance
	if (v.size() < 40) return; const Mom m = moments(v); const double n = std::sqrt((double)v.size()); if (std::fabs(m.mean) > 8 * sd / n) sim::fail("init-distribution", "%s: %zu weights have a mean of %.6g (deviation asked for %.6g)", what, v.size(), m.mean, sd); if (std::fabs(m.sd - sd) > 8 * sd / n) sim::fail("init-distribution", "%s: %zu weights have a deviation of %.6g instead of %.6g", what, v.size(), m.sd, sd); if (m.mx > 8 * sd) sim::fail("init-distribution", "%s: a weight of %.6g (deviation asked for %.6g)", what, m.mx, sd);
}
template<class I> static void t_static() {
	typedef typename I::real_t R; typedef math::smatrix<R> MX; auto* e = new Env<I>(sim::rnd(1000000) + 1); auto &r = *e->r; auto& m = *e->m;
	for (int q = 0, nq = (int)sim::rng(1, 4); q < nq; ++q) if (sim::keep_op()) {
		const int what = (int)sim::rnd(8); const bool big = sim::chance(.4); int rows = (int)sim::rng(1, big ? 40 : 8), cols = (int)sim::rng(2, big ? 40 : 9); if (what == 3 || what == 4) cols = std::max(cols, (int)sim::rng(4, 8)); if (what == 5) cols = std::max(cols, 16);
		MX W; if (!W.resize(rows, cols)) sim::fail("setup", "no memory"); { sim::Oracle g; for (int64_t i = 0; i < W.numel(); ++i) W.data()[i] = (R)777; } sim::context("%s %d scheme of %dx%d weights%s", sizeof(R) == 4 ? "float" : "double", what, rows, cols, q ? "" : " first");
		const auto g0 = sim::alloc_failures(); const bool af = what >= 3 && sim::chance(.4); if (af) sim::alloc_faults(true); bool ok;
		switch (what) { case 0: ok = weights_init::Xavier<1500000>::make_weights(W, r, m); break; case 1: ok = weights_init::He_Zhang<500000>::make_weights(W, r, m); break; case 2: ok = weights_init::He_Zhang2<3000000>::make_weights(W, r, m); break;
			case 3: ok = weights_init::Martens_SI_sigm<3>::make_weights(W, r, m); break; case 4: ok = weights_init::Martens_SI_tanh<3>::make_weights(W, r, m); break; case 5: ok = weights_init::Martens_SI<-250000, 2000000, 15>::make_weights(W, r, m); break; case 6: ok = weights_init::OrthoInit_u::make_weights(W, r, m); break; default: ok = weights_init::OrthoInit<1500000>::make_weights(W, r, m); }
		sim::alloc_faults(false); const bool hurt = sim::alloc_failures() != g0; if (what >= 6 && ok ? false : ok == hurt) sim::fail(hurt ? "failure-hidden" : "init-failed", "make_weights() returned %d", (int)ok); if (!ok) { sim::probe("refused"); continue; }
		if (W.rows() != rows || W.cols() != cols || W.emulatesBiases()) sim::fail("init-shape", "the matrix has become %dx%d", (int)W.rows(), (int)W.cols());
		sim::Oracle g; auto at = [&](int i, int j) { return (double)W.data()[(size_t)j * rows + i]; }; std::vector<double> in, bias; for (int j = 0; j < cols; ++j) for (int i = 0; i < rows; ++i) { const double v = at(i, j); if (!std::isfinite(v) || v == 777) sim::fail("init-value", "weight %d of neuron %d is %g", j, i, v); (j == cols - 1 ? bias : in).push_back(v); } auto zero_bias = [&](double b) { for (double v : bias) if (v != (double)(R)b) sim::fail("init-bias", "a bias is %.9g instead of %g", v, b); };
		if (what == 0) { const double lim = 1.5 * std::sqrt(6.0 / (rows + cols)); in.insert(in.end(), bias.begin(), bias.end()); const Mom mo = moments(in); if (mo.mx > lim * (1 + 1e-6)) sim::fail("init-distribution", "a weight of %.9g is beyond %.9g", mo.mx, lim); if (in.size() >= 40) { const double sd = lim / std::sqrt(3.), n = std::sqrt((double)in.size()); if (std::fabs(mo.mean) > 8 * sd / n || std::fabs(mo.sd - sd) > 8 * sd * .7 / n) sim::fail("init-distribution", "weights uniform within %.6g have a mean of %.6g and a deviation of %.6g", lim, mo.mean, mo.sd); } }
		else if (what <= 2) { zero_bias(0); gauss("He-Zhang", in, what == 1 ? .5 * std::sqrt(2.0 / (cols - 1)) : std::sqrt(3.0 / (cols - 1))); }
		else if (what <= 5) { const int nz = what == 5 ? 15 : 3; const double b = what == 3 ? 0 : what == 4 ? .5 : -.25, sd = what == 3 ? 1 : what == 4 ? .25 : 2; zero_bias(b); std::vector<double> vals; int lost = 0; /* a drawn weight may be zero itself, rarely; a pair of them comes from one draw */ for (int i = 0; i < rows; ++i) { int k = 0; for (int j = 0; j < cols - 1; ++j) if (at(i, j) != 0) { ++k; vals.push_back(at(i, j)); } if (k > nz || (lost += nz - k) > 2) sim::fail("init-sparse", "neuron %d has %d incoming weights instead of %d", i, k, nz); } gauss("sparse", vals, sd); 
			if (cols - 1 > nz && rows >= 30) { bool same = true; for (int i = 1; i < rows; ++i) for (int j = 0; j < cols - 1; ++j) if ((at(i, j) != 0) != (at(0, j) != 0)) same = false; if (same) sim::fail("init-sparse", "all %d neurons have the same inputs out of %d", rows, cols - 1); } }
		else { const double gain = what == 6 ? 1 : 1.5, tol = sizeof(R) == 4 ? 1e-4 : 1e-9; const bool byrow = rows < cols; for (int a = 0; a < (byrow ? rows : cols); ++a) for (int b = 0; b <= a; ++b) { double s = 0; for (int k = 0; k < (byrow ? cols : rows); ++k) s += byrow ? at(a, k) * at(b, k) : at(k, a) * at(k, b); if (std::fabs(s - (a == b ? gain * gain : 0)) > tol * gain * gain) sim::fail("init-orthogonal", "%s %d and %d have a product of %.9g", byrow ? "rows" : "columns", a, b, s); } }
		sim::note_bytes(W.data(), (size_t)W.numel() * sizeof(R)); static const char* const pn[] = { "xavier", "he1", "he2", "sparse1", "sparse2", "sparse3", "ortho1", "ortho2" }; sim::probe(pn[what]);
	}
	delete e;
}
static void tune_si(sim::Knobs& k) { static const double p[] = { .1, .3, .6 }; k.p_allocfail = p[sim::rnd(3)]; k.max_allocfail = 1 + (unsigned)sim::rnd(12); }
static void si_f() { t_static<Iw<float>>(); } SIM_SCENARIO(P23, init_f, si_f, tune_si, 1)
static void si_d() { t_static<Is<double>>(); } SIM_SCENARIO(P23, init_d, si_d, tune_si, 1)
