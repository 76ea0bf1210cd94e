// P23: layer-sequential normalisation of weights (LSUV) and static initialisation schemes
#include "arch2.h"
#include <nntl/weights_init/LsuvExt.h>
namespace sim { std::ostream nullout(nullptr); }
struct LS { double tS, tC, eS, eC; bool sc, ce, ind, pre; int bs, bc, tries, reinit; };
static LS draw_ls(int n) {
	LS s; static const double t[] = { 1, .5, 2 }, c[] = { 0, 0, .25 }; s.pre = sim::chance(.6); s.tS = t[sim::rnd(3)] * (s.pre ? 1 : .25); s.tC = c[sim::rnd(3)]; s.eS = sim::chance(.7) ? .01 : .1; s.eC = sim::chance(.7) ? .01 : .2; s.sc = sim::chance(.85); s.ce = sim::chance(.6); s.ind = sim::chance(.5);
	s.bs = sim::chance(.5) ? 0 : (int)sim::rng(2, n + 3); s.bc = sim::chance(.3) ? (int)sim::rng(1, 3) : 0; s.tries = sim::chance(.1) ? (int)sim::rnd(3) : (int)sim::rng(6, 20); s.reinit = sim::chance(.5) ? 1 : (int)sim::rng(1, 3); return s;
}
template<class L_> static void put_ls(L_& d, const LS& s) { typedef typename L_::statsdata_t S; d.targetScale = (S)s.tS; d.targetCentral = (S)s.tC; d.ScaleTolerance = (S)s.eS; d.CentralTolerance = (S)s.eC; d.bScaleNormalize = s.sc; d.bCentralNormalize = s.ce; d.bOnInvidualNeurons = s.ind; d.bOverPreActivations = s.pre; d.batchSize = s.bs; d.batchCount = s.bc; d.maxTries = s.tries; d.maxReinitTries = s.reinit; d.bVerbose = sim::chance(.3); }
struct Stt { double mean, sd, mx; bool constant; int64_t n; };
static Stt stat_of(const Tape& t, M& a, int n, int used, int col) { // col < 0: of all neurons
	long double s = 0, v = 0; int64_t k = 0; double lo = 1e300, hi = -1e300, mx = 0; for (int p = 0; p < 2; ++p) for (int i = 0; i < a.r; ++i) if (i % n < used) for (int j = col < 0 ? 0 : col; j < (col < 0 ? a.c : col + 1); ++j) { const double x = t.n[a.at(i, j)].v; if (p) v += (x - s / k) * (x - s / k); else { s += x; ++k; lo = std::min(lo, x); hi = std::max(hi, x); mx = std::max(mx, fabs(x)); } }
	return Stt{ (double)(s / k), (double)sqrt((double)(v / (k - 1))), mx, hi - lo <= 1e-12 * mx, k };
}
template<class A, class I, class S> static void t_lsuv() {
	typedef typename I::real_t R; Cfg c = draw_cfg(30); c.n = std::max(c.n, 3); c.onehot = A::onehot; auto* s = new RSys<A, I>(c); auto& m = *s->m; typedef nnet<decltype(s->a->lp)> NN; typedef inmem_train_data<R> TD; typedef weights_init::procedural::LSUVExt<NN, TD, S> W;
	const size_t nl = m.L.size(); std::vector<LS>* ls; std::vector<V>* W0; std::string* txt; { sim::Oracle g; ls = new std::vector<LS>(nl); W0 = new std::vector<V>(nl); txt = new std::string; }
	LS def = draw_ls(c.n); const bool allpre = sim::chance(.4); if (allpre) { def.pre = true; def.tries = std::max(def.tries, 6); } std::vector<char>* own; { sim::Oracle g; own = new std::vector<char>(nl); } for (size_t i = 0; i < nl; ++i) { (*own)[i] = sim::chance(.4); (*ls)[i] = (*own)[i] ? draw_ls(c.n) : def; if (allpre) { (*ls)[i].pre = true; (*ls)[i].tries = std::max((*ls)[i].tries, 6); } }
	{ sim::Oracle g; for (auto& l : *ls) { char b[160]; snprintf(b, sizeof b, " [%s%s scale %d/%g+-%g central %d/%g+-%g batches %d x %d tries %d x %d]", l.ind ? "neurons" : "whole", l.pre ? " pre" : "", l.sc, l.tS, l.eS, l.ce, l.tC, l.eC, l.bs, l.bc, l.tries, l.reinit); *txt += b; } }
	sim::context("%s %s%s%s", A::name, sizeof(R) == 4 ? "float " : "", c.str().c_str(), txt->c_str());
	// what the network went through before
	const int pre = (int)sim::rnd(3), n = c.n; TrainSpec sp = spec_of(c); sp.epochs = 1; g_cfg = &c; g_spec = &sp;
	if (pre == 2) { if ((int)s->train(sp, NoCb())) sim::fail("setup", "training failed"); } else if (pre == 1) { vec_len_t b = (vec_len_t)sim::rng(1, std::max(c.n, c.m)); if ((int)s->nn->init4fixedBatchFprop(*s->td, b)) sim::fail("setup", "initialisation failed"); }
	if (pre) { sim::Oracle g; for (size_t i = 0; i < nl; ++i) (*W0)[i] = m.L[i].get(); }
	bool ok; layer_index_t bad; {
		typename W::LayerSetts_t d, d0; put_ls(d, def); const bool later = sim::chance(.3); W w(*s->nn, *s->td, later ? d0 : d); if (later) { if (sim::chance(.5)) w.setts().set_default(d0).set_default(d); else w.setts().set_default(d); } for (size_t i = 0; i < nl; ++i) if ((*own)[i]) { if (sim::chance(.2)) w.setts().add((layer_index_t)m.L[i].idx, d); typename W::LayerSetts_t e; put_ls(e, (*ls)[i]); w.setts().add((layer_index_t)m.L[i].idx, e); }
		w.m_bDeinitNnetOnDestroy = sim::chance(.5); ok = w.run(); bad = w.m_firstFailedLayerIdx; }
	{ sim::Oracle g; std::vector<V> X(n, V(c.xw)), Wn; for (int i = 0; i < n; ++i) for (int j = 0; j < c.xw; ++j) X[i][j] = (double)(R)xval(c, i, j); for (auto& l : m.L) Wn.push_back(l.get());
		bool fin = true; for (auto& w : Wn) for (double x : w) if (!std::isfinite(x) || fabs(x) > 1e6) fin = false;
		if (ok != (bad == 0)) sim::fail("lsuv-result", "run() returned %d but layer %u is said to have failed", (int)ok, (unsigned)bad); if (bad && m.by_idx((int)bad) < 0) sim::fail("lsuv-result", "layer %u that is said to have failed has no weights", (unsigned)bad);
		bool none = false; for (auto& w : Wn) if (w.empty()) none = true;
		if (none) sim::probe("no_weights"); else if (!fin) sim::probe("diverged"); else {
		m.forward(X, Wn, false); const bool kink = m.kink; bool expect = true; const double eps = sizeof(R) == 4 ? 3e-3 : 1e-7;
		for (size_t i = 0; i < nl; ++i) {
			const LS& l = (*ls)[i]; M& a = l.pre ? m.Zl[i] : m.Al[i]; const Ly& y = m.L[i]; const bool act = (l.sc || l.ce) && l.tries > 0; const int bs = l.bs ? std::min(l.bs, n) : n; int nb = (n + bs - 1) / bs; if (l.bc) nb = std::min(nb, l.bc); const int used = std::min(n, nb * bs), nbias = y.rows * (y.cols - 1);
			if (!act) { if (pre && Wn[i] != (*W0)[i]) sim::fail("lsuv-weights", "weights of layer %zu were changed although nothing was asked for", i); sim::probe("skipped"); continue; }
			bool measurable = true; for (int j = 0; j < (l.ind ? y.rows : 1); ++j) { const Stt t = stat_of(m.t, a, n, used, l.ind ? j : -1); if (t.constant ? t.mx > 0 : t.sd < 1e-3 * t.mx || t.sd < 1e-20) measurable = false; if (t.constant && l.ind == false && l.pre) measurable = false; }
			const bool sure = l.pre && l.tries >= 6; if (!(measurable && sure)) expect = false; // values before the activation depend linearly on the weights: always reachable
			if (measurable && !kink && (ok || sure)) for (int j = 0; j < (l.ind ? y.rows : 1); ++j) { const Stt t = stat_of(m.t, a, n, used, l.ind ? j : -1);
				if (l.sc && !t.constant && fabs(t.sd - l.tS) > l.eS * 1.01 + eps * (1 + t.mx)) sim::fail("lsuv-scale", "layer %zu%s neuron %d: the deviation %s the activation is %.9g instead of %g +- %g (run() returned %d)", i, l.ind ? "" : " as a whole,", j, l.pre ? "before" : "after", t.sd, l.tS, l.eS, (int)ok);
				if (l.ce && fabs(t.mean - l.tC) > l.eC * 1.01 + eps * (1 + t.mx)) sim::fail("lsuv-mean", "layer %zu%s neuron %d: the mean %s the activation is %.9g instead of %g +- %g (run() returned %d)", i, l.ind ? "" : " as a whole,", j, l.pre ? "before" : "after", t.mean, l.tC, l.eC, (int)ok); sim::probe(l.ind ? "neuron" : "whole"); }
			if (pre && l.reinit == 1) { // the weights were only scaled and the biases shifted
				const V &w = Wn[i], &o = (*W0)[i]; double s1 = 0, o1 = 0; for (int r = 0; r < y.rows; ++r) {
					if (!l.ind && r) { } else { double best = 0; s1 = 1; for (int q = 0; q < (l.ind ? 1 : y.rows); ++q) for (int k = 0; k < y.cols - 1; ++k) { const size_t at = (size_t)k * y.rows + (l.ind ? r : q); if (fabs(o[at]) > best) { best = fabs(o[at]); s1 = w[at] / o[at]; } } if (!l.sc) s1 = 1; o1 = w[(size_t)nbias + r] - s1 * o[(size_t)nbias + r]; if (!l.ce) o1 = 0; if (l.sc && !(s1 > 0)) sim::fail("lsuv-weights", "weights of layer %zu were multiplied by %g", i, s1); }
					for (int k = 0; k < y.cols; ++k) { const size_t at = (size_t)k * y.rows + r; const double e = s1 * o[at] + (k == y.cols - 1 ? o1 : 0); if (!l.sc && k < y.cols - 1 ? w[at] != o[at] : fabs(w[at] - e) > (sizeof(R) == 4 ? 1e-4 : 1e-10) * (1 + fabs(s1 * o[at]) + fabs(o1))) sim::fail("lsuv-weights", "layer %zu weight %d of neuron %d became %.12g instead of %.12g (was %.12g)", i, k, r, w[at], e, o[at]); } }
				sim::probe("affine"); }
		}
		if (expect && !ok) sim::fail("lsuv-failed", "layer %u was not normalised although it could be", (unsigned)bad); sim::probe(ok ? "success" : "failure");
	} }
	// the network computes with its activations again
	{ vec_len_t b = (vec_len_t)c.m; const auto ec = s->nn->init4fixedBatchFprop(*s->td, b); if ((int)ec) sim::fail("setup", "initialisation failed"); s->nn->doFixedBatchFprop(s->td->test_x()); auto& o = s->a->out.get_activations(); sim::Oracle g; std::vector<V> X(c.m, V(c.xw)), Wn; for (int i = 0; i < c.m; ++i) for (int j = 0; j < c.xw; ++j) X[i][j] = (double)(R)xval(c, TEST0 + i, j); bool fin = true; for (auto& l : m.L) { Wn.push_back(l.get()); for (double x : Wn.back()) if (!std::isfinite(x) || fabs(x) > 1e6) fin = false; }
		if (fin) { M e = m.forward(X, Wn, false); auto got = samples(o); if (!m.kink) for (int i = 0; i < c.m; ++i) for (int j = 0; j < c.yw; ++j) if (!m.close(got[i][j], m.t.n[e.at(i, j)].v, 0)) sim::fail("lsuv-prediction", "output %d of sample %d is %.12g instead of %.12g", j, i, got[i][j], m.t.n[e.at(i, j)].v); for (auto& w : Wn) sim::note_bytes(w.data(), w.size() * 8); } }
	if (sim::chance(.3)) { g_m = nullptr; const auto ec = s->train(sp, NoCb()); if ((int)ec) sim::fail("lsuv-train", "training afterwards failed"); }
	{ sim::Oracle g; delete ls; delete W0; delete txt; delete own; } delete s;
}
#define SL(A) static void l_##A() { t_lsuv<A, Rw<double>, double>(); } SIM_SCENARIO(P23, lsuv_##A, l_##A, nullptr, 2)
SL(AFc) SL(APh) SL(APt) SL(APa) SL(GRelu) SL(GLog) SL(GLl) SL(GDo) SL(GNest)
static void lf_AFc() { t_lsuv<AFc, Rs<float>, double>(); } SIM_SCENARIO(P23, lsuvf_AFc, lf_AFc, nullptr, 1)
