// Training against a reference model (P21): every weight update, prediction and reported loss of a simulated training is
// recomputed by a scalar reverse-mode differentiator and textbook optimisers, from the data, the settings and the random numbers drawn.
#pragma once
#include <cmath>
#include <functional>
#include "nets.h"

typedef std::vector<double> V;
// ---- settings ----------------------------------------------------------------------------------------------
struct LCfg { int opt; double lr, mom, l1, l2, mn, lrd, b1, b2, eps, gamma, dec, inc, lo, hi; bool nest, l1b, l2b, mnb, nlrd, ilr, ilrm, frozen; };
static std::string lstr(const LCfg& c) { char b[300]; snprintf(b, sizeof b, "opt=%d lr=%g mom=%g%s l1=%g%s l2=%g%s mn=%g%s lrd=%g%s b=%g,%g eps=%g gamma=%g%s%s%s", c.opt, c.lr, c.mom, c.nest ? "n" : "", c.l1, c.l1b ? "b" : "", c.l2, c.l2b ? "b" : "", c.mn, c.mnb ? "b" : "", c.lrd, c.nlrd ? "n" : "", c.b1, c.b2, c.eps, c.gamma, c.ilr ? " ilr" : "", c.ilrm ? "m" : "", c.frozen ? " frozen" : ""); return b; }
static LCfg draw_lcfg() {
	LCfg c; memset(&c, 0, sizeof c); c.opt = (int)sim::rnd(9); c.lr = sim::chance(.05) ? 0 : .005 * (double)sim::rng(1, 20); c.mom = sim::chance(.4) ? .1 * (double)sim::rng(1, 9) : 0; c.nest = sim::chance(.5); c.l1 = sim::chance(.2) ? .01 : 0; c.l1b = sim::chance(.5); c.l2 = sim::chance(.25) ? .02 : 0; c.l2b = sim::chance(.5); c.mn = sim::chance(.25) ? .25 * (double)sim::rng(1, 6) : 0; c.mnb = sim::chance(.5); c.lrd = sim::chance(.2) ? .7 : 1; c.nlrd = sim::chance(.6);
	c.ilr = sim::chance(.25); c.ilrm = sim::chance(.4); c.dec = .9; c.inc = 1.125; c.lo = .5; c.hi = 1.25; const bool def = sim::chance(.5); c.b1 = def ? .9 : .5; c.b2 = def ? .999 : .75; c.gamma = def ? .05 : .25; c.eps = sim::chance(.5) ? 1e-4 : 1e-2; c.frozen = sim::chance(.06); if (c.frozen) c.mn = 0; return c;
}
template<class G, class R> static void gw_set(G& g, const LCfg& c) {
	g.set_type((typename G::GradType)c.opt).learning_rate((R)c.lr).beta1((R)c.b1).beta2((R)c.b2).gamma((R)c.gamma).numeric_stabilizer((R)c.eps); if (c.nest) g.nesterov_momentum((R)c.mom); else g.momentum((R)c.mom);
	g.L1((R)c.l1, !c.l1b); g.L2((R)c.l2, !c.l2b); g.max_norm2((R)c.mn, c.mnb); g.LRDropoutPercentActive((R)c.lrd); g.setApplyLRDropoutToNesterovMomentum(c.nlrd); if (c.ilr) g.set_ILR((R)c.dec, (R)c.inc, (R)c.lo, (R)c.hi); else g.clear_ILR(); g.applyILRToMomentum(c.ilrm);
}
// ---- the model: a scalar tape -------------------------------------------------------------------------------
struct Tape {
	struct N { double v; int p[3]; double d[3]; }; std::vector<N> n; V adj;
	int var(double v) { n.push_back(N{ v, { -1, -1, -1 }, { 0, 0, 0 } }); return (int)n.size() - 1; }
	int mac(int acc, int a, int b) { n.push_back(N{ n[acc].v + n[a].v * n[b].v, { acc, a, b }, { 1, n[b].v, n[a].v } }); return (int)n.size() - 1; }
	int un(int a, double v, double d) { n.push_back(N{ v, { a, -1, -1 }, { d, 0, 0 } }); return (int)n.size() - 1; }
	int add(int a, int b) { n.push_back(N{ n[a].v + n[b].v, { a, b, -1 }, { 1, 1, 0 } }); return (int)n.size() - 1; }
};
struct M { int r = 0, c = 0; std::vector<int> e; int& at(int i, int j) { return e[(size_t)i * c + j]; } M(int r_ = 0, int c_ = 0) : r(r_), c(c_), e((size_t)r_ * c_, -1) {} };
enum Act { Sigm, Lrelu, Softsign, Selu, Softsigm, Elu, Relu, Elogu, Logu, Loglogu, Ident, Softmax };
enum Loss { NoLoss, Quad, XEnt, SmXEnt, QuadFP };
struct Add { int kind; double s; bool nz; }; // 0 L1, 1 L2, 2 DeCov
enum NK { FC, VP, HP, TP, OP, ID };
struct Nd { NK k = ID; int L = -1; Act act = Ident; double p1 = 1, p2 = 1; int dk = 0; std::vector<Add> add; std::vector<Nd> ch; std::vector<std::pair<int, int>> co; int tiles = 1, gofs = 0, gcnt = 0; bool notf = false; Loss loss = NoLoss; };
static void actf(const Nd& n, double z, double& a, double& d, bool& kink) {
	const double z0 = 1e-7; auto knk = [&] { if (fabs(z) < z0) kink = true; };
	switch (n.act) {
	case Sigm: a = 1 / (1 + exp(-z)); d = a * (1 - a); break;
	case Relu: knk(); a = z > 0 ? z : 0; d = z > 0; break;
	case Lrelu: knk(); a = z > 0 ? z : n.p1 * z; d = z > 0 ? 1 : n.p1; break;
	case Softsign: a = n.p2 * z / (n.p1 + fabs(z)); d = n.p2 * n.p1 / ((n.p1 + fabs(z)) * (n.p1 + fabs(z))); break;
	case Softsigm: a = z / (2 * (n.p1 + fabs(z))) + .5; d = n.p1 / (2 * (n.p1 + fabs(z)) * (n.p1 + fabs(z))); break;
	case Elu: if (n.p1 != 1) knk(); a = z > 0 ? z : n.p1 * (exp(z) - 1); d = z > 0 ? 1 : n.p1 * exp(z); break;
	case Selu: knk(); { const double al = 1.6732632423543772848170429916717, la = 1.0507009873554804934193349852946; a = z > 0 ? la * z : la * al * (exp(z) - 1); d = z > 0 ? la : la * al * exp(z); } break;
	case Elogu: knk(); { const double b = log(n.p2); a = z > 0 ? log(z + 1) / b : n.p1 * (exp(z) - 1); d = z > 0 ? 1 / ((z + 1) * b) : n.p1 * exp(z); } break;
	case Logu: knk(); { const double b = log(n.p1); a = z > 0 ? log(z + 1) / b : 0; d = z > 0 ? 1 / ((z + 1) * b) : 0; } break;
	case Loglogu: knk(); { const double bn = log(n.p1), bp = log(n.p2); a = z > 0 ? log(z + 1) / bp : -log(1 - z) / bn; d = z > 0 ? 1 / ((z + 1) * bp) : 1 / ((1 - z) * bn); } break;
	default: a = z; d = 1;
	}
}
struct Ly { // one layer with weights: what is known about it and the state of its optimiser
	void* obj; int idx, rows, cols; LCfg c; double dpa = 1; std::function<V()> get; std::function<const void*()> ptr;
	V Ws, Wg, g, mask, lrd, nlrd; bool ev = false; int events = 0; // of the current batch
	bool first = true; V Vw, F, G, gain, prev; double b1t = 1, b2t = 1; std::vector<char> fuzzy;
};
static void maxnorm(const Ly& l, V& w) { if (l.c.mn <= 0) return; for (int n = 0; n < l.rows; ++n) { double s = 0; for (int k = 0; k < l.cols - (l.c.mnb ? 0 : 1); ++k) s += w[k * l.rows + n] * w[k * l.rows + n]; if (s > l.c.mn) { const double f = sqrt(l.c.mn / s); for (int k = 0; k < l.cols; ++k) w[k * l.rows + n] *= f; } } }
struct Model {
	std::vector<Ly> L; Nd net; Loss loss = Quad; Act oact = Sigm; double fpw = 1, fpo = 1; // of false positives and of the other errors
	 double tol = 1e-8; bool fl = false; bool la0 = false; double clo = 0, chi = 0; // clamping of dL/dZ
	// ---- recording
	std::vector<std::vector<double>> x, y; std::vector<int> stack; int cur = -1; bool on = false; int64_t batches = 0, skipped = 0;
	int by_ptr(const void* p) { for (size_t i = 0; i < L.size(); ++i) if (L[i].ptr() == p) return (int)i; return -1; }
	int by_idx(int idx) { for (size_t i = 0; i < L.size(); ++i) if (L[i].idx == idx) return (int)i; return -1; }
	// ---- forward and backward pass
	Tape t; std::vector<std::vector<int>> wid; std::vector<int> rows; bool kink = false; struct Hook { int at; M a; std::vector<Add> add; }; std::vector<Hook> hooks; V apen; M zout, aout; bool training = false; double penalty = 0; std::vector<M> Zl, Al; // of each layer with weights: values before and after the activation
	M fwd(const Nd& n, const M& in_) {
		M in = in_;
		if (n.k == ID) return in;
		if (n.k == VP) { M m = in; for (auto& c : n.ch) m = fwd(c, m); return m; }
		if (n.k == FC) {
			Ly& l = L[n.L]; if (in.c + 1 != l.cols) sim::fail("shape", "layer %d takes %d inputs instead of %d", n.L, l.cols - 1, in.c); rows[n.L] = in.r; M z(in.r, l.rows), a(in.r, l.rows); auto& w = wid[n.L];
			for (int i = 0; i < in.r; ++i) for (int j = 0; j < l.rows; ++j) { int s = w[(size_t)in.c * l.rows + j]; for (int k = 0; k < in.c; ++k) s = t.mac(s, w[(size_t)k * l.rows + j], in.at(i, k)); z.at(i, j) = s; }
			if (n.act == Softmax) for (int i = 0; i < in.r; ++i) { double mx = -1e300, s = 0; for (int j = 0; j < l.rows; ++j) mx = std::max(mx, t.n[z.at(i, j)].v); for (int j = 0; j < l.rows; ++j) s += exp(t.n[z.at(i, j)].v - mx); for (int j = 0; j < l.rows; ++j) a.at(i, j) = t.un(z.at(i, j), exp(t.n[z.at(i, j)].v - mx) / s, 0); }
			else for (size_t q = 0; q < z.e.size(); ++q) { double v, d; actf(n, t.n[z.e[q]].v, v, d, kink); a.e[q] = t.un(z.e[q], v, d); }
			Zl[n.L] = z; Al[n.L] = a; if (n.loss != NoLoss) { zout = z; aout = a; }
			if (!n.add.empty()) { hooks.push_back(Hook{ a.e.empty() ? -1 : a.e.back(), a, n.add }); for (auto& ad : n.add) penalty += pen(ad, a); }
			if (training && n.dk && l.dpa < 1) {
				if ((int)l.mask.size() != in.r * l.rows) sim::fail("dropout", "layer %d of %d neurons draws %zu dropout decisions for %d samples", n.L, l.rows, l.mask.size(), in.r);
				const double al = -1.6732632423543772848170429916717 * 1.0507009873554804934193349852946, q = 1 - l.dpa, ka = sqrt(1 / (l.dpa * (q * al * al + 1))), kb = -ka * q * al; M o(in.r, l.rows);
				for (int i = 0; i < in.r; ++i) for (int j = 0; j < l.rows; ++j) { const bool keep = l.mask[(size_t)j * in.r + i] < l.dpa; const int id = a.at(i, j); const double v = t.n[id].v; o.at(i, j) = n.dk == 1 ? t.un(id, keep ? v / l.dpa : 0, keep ? 1 / l.dpa : 0) : t.un(id, keep ? v * ka + kb : al * ka + kb, keep ? ka : 0); }
				return o;
			}
			return a;
		}
		if (n.k == HP) {
			M o; std::vector<M> p; int c = 0; for (size_t q = 0; q < n.ch.size(); ++q) { M s(in.r, n.co[q].second); for (int i = 0; i < in.r; ++i) for (int j = 0; j < s.c; ++j) s.at(i, j) = in.at(i, n.co[q].first + j); p.push_back(fwd(n.ch[q], s)); c += p.back().c; }
			o = M(in.r, c); int f = 0; for (auto& m : p) { for (int i = 0; i < in.r; ++i) for (int j = 0; j < m.c; ++j) o.at(i, f + j) = m.at(i, j); f += m.c; } return o;
		}
		if (n.k == TP) {
			const int w = in.c / n.tiles; M s(in.r * n.tiles, w); for (int k = 0; k < n.tiles; ++k) for (int i = 0; i < in.r; ++i) for (int j = 0; j < w; ++j) s.at(k * in.r + i, j) = in.at(i, k * w + j);
			M m = fwd(n.ch[0], s), o(in.r, m.c * n.tiles); for (int k = 0; k < n.tiles; ++k) for (int i = 0; i < in.r; ++i) for (int j = 0; j < m.c; ++j) o.at(i, k * m.c + j) = m.at(k * in.r + i, j); return o;
		}
		// gated pack: [gates][their complements][outputs of the gated layers, zero where the gate is closed]
		std::vector<M> p; int c = n.gcnt * (n.notf ? 2 : 1); std::vector<std::vector<int>> rw;
		for (size_t q = 0; q < n.ch.size(); ++q) {
			std::vector<int> r; for (int i = 0; i < in.r; ++i) { const double g = t.n[in.at(i, n.gofs + (int)q)].v; if (fabs(g - .5) < 1e-6) kink = true; if (g > .5) r.push_back(i); }
			M s((int)r.size(), n.co[q].second); for (size_t i = 0; i < r.size(); ++i) for (int j = 0; j < s.c; ++j) s.at((int)i, j) = in.at(r[i], n.co[q].first + j);
			p.push_back(fwd(n.ch[q], s)); c += p.back().c; rw.push_back(r);
		}
		M o(in.r, c); for (int i = 0; i < in.r; ++i) for (int q = 0; q < n.gcnt; ++q) { const bool g = t.n[in.at(i, n.gofs + q)].v > .5; o.at(i, q) = t.var(g); if (n.notf) o.at(i, n.gcnt + q) = t.var(!g); }
		int f = n.gcnt * (n.notf ? 2 : 1); for (size_t q = 0; q < p.size(); ++q) { for (int i = 0; i < in.r; ++i) for (int j = 0; j < p[q].c; ++j) o.at(i, f + j) = -1; for (size_t i = 0; i < rw[q].size(); ++i) for (int j = 0; j < p[q].c; ++j) o.at(rw[q][i], f + j) = p[q].at((int)i, j); for (int i = 0; i < in.r; ++i) for (int j = 0; j < p[q].c; ++j) if (o.at(i, f + j) < 0) o.at(i, f + j) = t.var(0); f += p[q].c; }
		return o;
	}
	double pen(const Add& ad, M& a) { double s = 0; if (ad.kind < 2) { for (int id : a.e) s += ad.kind ? .5 * t.n[id].v * t.n[id].v : fabs(t.n[id].v); return ad.s * s; } V mu(a.c); cov(a, mu, [&](int i, int j, double c) { if (i != j) s += .5 * c * c; }); return ad.s * s / (a.c - 1); }
	template<class F> void cov(M& a, V& mu, F f) { for (int j = 0; j < a.c; ++j) { mu[j] = 0; for (int i = 0; i < a.r; ++i) mu[j] += t.n[a.at(i, j)].v / a.r; } for (int p = 0; p < a.c; ++p) for (int q = 0; q < a.c; ++q) { double c = 0; for (int i = 0; i < a.r; ++i) c += (t.n[a.at(i, p)].v - mu[p]) * (t.n[a.at(i, q)].v - mu[q]) / a.r; f(p, q, c); } }
	M forward(const std::vector<V>& X, const std::vector<V>& W, bool tr) {
		t.n.clear(); hooks.clear(); kink = false; training = tr; penalty = 0; wid.assign(L.size(), {}); rows.assign(L.size(), 0); Zl.assign(L.size(), M()); Al = Zl; for (size_t l = 0; l < L.size(); ++l) for (double v : W[l]) wid[l].push_back(t.var(v));
		M in((int)X.size(), X.empty() ? 0 : (int)X[0].size()); for (int i = 0; i < in.r; ++i) for (int j = 0; j < in.c; ++j) in.at(i, j) = t.var(X[i][j]); return fwd(net, in);
	}
	void backward(const std::vector<V>& Y) {
		t.adj.assign(t.n.size(), 0); V& ad = t.adj; V zd(t.n.size(), 0);
		for (int i = 0; i < zout.r; ++i) for (int j = 0; j < zout.c; ++j) { const auto& an = t.n[aout.at(i, j)]; double d = an.v - Y[i][j]; if (loss == Quad) d *= an.d[0]; else if (loss == XEnt && oact != Sigm) d *= an.d[0] / (an.v * (1 - an.v)); /* for the sigmoid this factor is 1 */ else if (loss == QuadFP) { if (fabs(an.v - Y[i][j]) < 1e-7) kink = true; d *= Y[i][j] < .5 && an.v > Y[i][j] ? fpw : fpo; } if (clo != 0 || chi != 0) d = std::min(chi, std::max(clo, d)); zd[zout.at(i, j)] = d; }
		size_t h = hooks.size();
		for (int k = (int)t.n.size() - 1; k >= 0; --k) {
			while (h && hooks[h - 1].at == k) { auto& hk = hooks[--h]; for (auto& a : hk.add) if (a.s != 0) { V mu(hk.a.c), g(hk.a.e.size(), 0); if (a.kind == 2) cov(hk.a, mu, [&](int p, int q, double c) { if (p != q) for (int i = 0; i < hk.a.r; ++i) g[(size_t)i * hk.a.c + p] += 2. / hk.a.r / (hk.a.c - 1) * c * (t.n[hk.a.at(i, q)].v - mu[q]); }); else for (size_t e = 0; e < g.size(); ++e) { const double v = t.n[hk.a.e[e]].v; if (!a.kind && fabs(v) < 1e-12 && v != 0) kink = true; g[e] = a.kind ? v : (v > 0) - (v < 0); } for (size_t e = 0; e < g.size(); ++e) if (!a.nz || ad[hk.a.e[e]] != 0) ad[hk.a.e[e]] += a.s * g[e]; } }
			ad[k] += zd[k]; if (ad[k] == 0) continue; for (int p = 0; p < 3; ++p) if (t.n[k].p[p] >= 0) ad[t.n[k].p[p]] += ad[k] * t.n[k].d[p];
		}
	}
	static void spread(Ly& l) { if (l.c.mn > 0) for (size_t k = 0; k < l.fuzzy.size(); ++k) if (l.fuzzy[k]) for (int q = 0; q < l.cols; ++q) l.fuzzy[(size_t)q * l.rows + k % l.rows] = 1; } // a norm depends on all weights of the neuron
	// ---- one training batch
	void begin(const std::vector<V>& X) { x = X; on = true; stack.clear(); cur = -1; for (auto& l : L) { l.Ws = l.get(); l.ev = false; l.events = 0; l.mask.clear(); l.lrd.clear(); l.nlrd.clear(); if (l.Vw.size() != l.Ws.size()) { l.Vw.assign(l.Ws.size(), 0); l.F = l.G = l.prev = l.Vw; l.gain.assign(l.Ws.size(), 1); l.fuzzy.assign(l.Ws.size(), 0); } } }
	bool close(double a, double b, double scale) { return fabs(a - b) <= tol * (1 + scale + fabs(a) + fabs(b)); }
	void cmp(const char* cls, const char* what, int li, const V& have, const V& want, const std::vector<char>* skip = nullptr) { double sc = 0; for (double v : want) sc = std::max(sc, fabs(v)); if (have.size() != want.size()) sim::fail(cls, "%s of layer %d: %zu values instead of %zu", what, li, have.size(), want.size()); for (size_t i = 0; i < have.size(); ++i) if (!(skip && (*skip)[i]) && !close(have[i], want[i], sc)) sim::fail(cls, "%s of layer %d, neuron %zu input %zu of %d: %.12g instead of %.12g (batch %lld of %zu samples; %s)", what, li, i % L[li].rows, i / L[li].rows, L[li].cols - 1, have[i], want[i], (long long)batches, x.size(), lstr(L[li].c).c_str()); }
	void end() {
		on = false; if (x.size() != y.size()) sim::fail("batch-shape", "%zu samples and %zu targets", x.size(), y.size());
		std::vector<V> W(L.size()), Wl(L.size()); std::vector<V> Vl(L.size());
		for (size_t i = 0; i < L.size(); ++i) { // the weights the forward pass uses
			Ly& l = L[i]; Wl[i] = l.Ws; Vl[i] = l.Vw; if (l.c.mom > 0 && l.c.nest) { for (size_t k = 0; k < Wl[i].size(); ++k) { Vl[i][k] *= l.c.mom; const bool drop = l.c.lrd < 1 && l.c.nlrd; if (drop && l.nlrd.size() != Wl[i].size()) l.nlrd.assign(Wl[i].size(), 0); if (!drop || l.nlrd[k] < l.c.lrd) Wl[i][k] -= Vl[i][k]; } maxnorm(l, Wl[i]); }
			W[i] = l.ev ? l.Wg : Wl[i];
		}
		forward(x, W, true); backward(y); ++batches; if (kink) { ++skipped; sim::probe("kink"); }
		for (size_t i = 0; i < L.size(); ++i) {
			Ly& l = L[i]; const bool live = rows[i] > 0 && !l.c.frozen; const V now = l.get();
			if (l.events > 1) sim::fail("update", "layer %zu is updated %d times in a batch", i, l.events);
			if (!live) { cmp("update", rows[i] ? "weights of a frozen layer" : "weights of a layer that got no samples", (int)i, now, rows[i] ? Wl[i] : l.Ws); if (rows[i]) l.Vw = Vl[i]; sim::probe(rows[i] ? "frozen" : "unused"); continue; }
			l.Vw = Vl[i]; if (l.ev) { spread(l); cmp("lookahead", "weights of the forward pass", (int)i, l.Wg, Wl[i], &l.fuzzy); }
			V g(l.Ws.size()); for (size_t k = 0; k < g.size(); ++k) g[k] = t.adj[wid[i][k]] / rows[i];
			if (l.ev) { if (!kink) cmp("gradient", "gradient", (int)i, l.g, g); g = l.g; }
			V w = W[i]; step(l, w, g); cmp("update", l.first ? "weights after the first update" : "weights after the update", (int)i, now, w, &l.fuzzy); l.first = false; sim::probe(l.c.opt == 0 ? "sgd" : "adaptive"); if (l.c.mom > 0) sim::probe(l.c.nest ? "nesterov" : "momentum"); if (l.c.ilr) sim::probe("ilr"); if (l.c.lrd < 1) sim::probe("lr-dropout");
		}
	}
	void step(Ly& l, V& w, V g) {
		const LCfg& c = l.c; const size_t n = w.size(), nb = n - l.rows; const double tiny = fl ? 1e-5 : 1e-12;
		for (size_t k = 0; k < n; ++k) { if (c.l1 && (c.l1b || k < nb)) g[k] += c.l1 * ((w[k] > 0) - (w[k] < 0)); if (c.l2 && (c.l2b || k < nb)) g[k] += c.l2 * w[k]; }
		const bool f1 = l.first; if (f1 && c.opt >= 5) { l.b1t = l.b2t = 1; std::fill(l.F.begin(), l.F.end(), 0); std::fill(l.G.begin(), l.G.end(), 0); } V d(n);
		const double mu = c.b1, eta = c.b2; double k1 = 0, k2 = 0, k3 = 0, k4 = 0, gm = 0;
		if (c.opt == 5) { l.b1t *= c.b1; l.b2t *= c.b2; k1 = c.lr * sqrt(1 - l.b2t) / (1 - l.b1t); } else if (c.opt == 6) { l.b1t *= c.b1; k1 = c.lr / (1 - l.b1t); }
		else if (c.opt >= 7) { const double m1 = l.b1t, m2 = m1 * mu, e1 = l.b2t * eta; k1 = (mu - m2) / (1 - m2); k2 = (eta - e1) / (1 - e1); gm = c.opt == 7 ? 0 : c.gamma; k3 = c.opt == 7 ? mu * (1 - m2) / (1 - mu * m2) : 1 - gm; k4 = c.opt == 7 ? 1 - k1 : gm; l.b1t = m2; l.b2t = e1; }
		for (size_t k = 0; k < n; ++k) {
			double &F = l.F[k], &G = l.G[k]; const double q = g[k];
			switch (c.opt) {
			case 0: d[k] = c.lr * q; break;
			case 1: if (f1) { F = q * q; d[k] = c.lr * q; } else { F = c.b1 * F + (1 - c.b1) * q * q; d[k] = c.lr * q / (sqrt(F) + c.eps); } break;
			case 2: if (f1) { F = q * q; G = q; d[k] = c.lr * q; } else { F = c.b1 * F + (1 - c.b1) * q * q; G = c.b1 * G + (1 - c.b1) * q; d[k] = c.lr * q / sqrt(F - G * G + c.eps); } break;
			case 3: d[k] = c.lr * ((q > 0) - (q < 0)); if (fabs(q) < tiny && q != 0) l.fuzzy[k] = 1; break;
			case 4: if (f1) { F = fabs(q); d[k] = c.lr * q; } else { F = c.b1 * F + (1 - c.b1) * fabs(q); d[k] = c.lr * q / (F + c.eps); } break;
			case 5: F = c.b1 * F + (1 - c.b1) * q; G = c.b2 * G + (1 - c.b2) * q * q; d[k] = k1 * F / (sqrt(G) + c.eps); break;
			case 6: F = c.b1 * F + (1 - c.b1) * q; G = std::max(fabs(q), c.b2 * G); d[k] = k1 * F / (G + c.eps); break;
			default: F = F * k1 + q * (1 - k1); G = G * k2 + q * q * (1 - k2); d[k] = c.lr * (k3 * F + k4 * q) / (sqrt(G) + c.eps);
			}
		}
		if (c.ilr) { const bool um = c.ilrm && c.mom > 0; if (!f1) for (size_t k = 0; k < n; ++k) { const double pv = um ? l.Vw[k] : l.prev[k], cd = pv * d[k]; if ((cd != 0 || (um && d[k] != 0)) && (fabs(pv) < tiny || fabs(d[k]) < tiny)) l.fuzzy[k] = 1; /* the sign is up to rounding */ if (cd > 0) { if (fabs(l.gain[k] - c.hi) < 1e-4) l.fuzzy[k] = 1; if (l.gain[k] < c.hi) l.gain[k] *= c.inc; } else if (cd < 0) { if (fabs(l.gain[k] - c.lo) < 1e-4) l.fuzzy[k] = 1; if (l.gain[k] > c.lo) l.gain[k] *= c.dec; } d[k] *= l.gain[k]; } if (!um) l.prev = d; }
		if (c.mom > 0) { if (c.nest) for (size_t k = 0; k < n; ++k) l.Vw[k] += d[k]; else for (size_t k = 0; k < n; ++k) d[k] = l.Vw[k] = c.mom * l.Vw[k] + d[k]; }
		if (c.lrd < 1) { if (l.lrd.size() != n) sim::fail("update", "learning rate dropout draws %zu numbers for %zu weights", l.lrd.size(), n); for (size_t k = 0; k < n; ++k) if (!(l.lrd[k] < c.lrd)) d[k] = 0; }
		for (size_t k = 0; k < n; ++k) w[k] -= d[k]; spread(l); maxnorm(l, w);
	}
};
static Model* g_m;
template<class M_> static V flat(const M_& m) { V v; for (int64_t i = 0, n = m.numel(); i < n; ++i) v.push_back((double)m.data()[i]); return v; }
template<class M_> static V flat_nb(const M_& m) { V v; for (int64_t i = 0, n = m.numel_no_bias(); i < n; ++i) v.push_back((double)m.data()[i]); return v; }
template<class R> struct RecR : inspector::_impl::_base<R> {
	typedef math::smatrix<R> mtx;
	void train_preFprop(const mtx& x) const noexcept { if (!g_m) return; sim::Oracle g; g_m->begin(samples(x)); }
	template<typename YT> void train_preBprop(const math::smatrix<YT>& y) const noexcept { if (!g_m) return; sim::Oracle g; g_m->y = samples(y); }
	void train_batchEnd() const noexcept { if (!g_m || !g_m->on) return; sim::Oracle g; g_m->end(); }
	void fprop_begin(const layer_index_t l, const mtx&, const bool tr) const noexcept { if (!g_m || !g_m->on || !tr) return; sim::Oracle g; g_m->stack.assign(1, (int)l); }
	void fprop_preDropout(const mtx&, const R, const mtx& m) const noexcept { if (!g_m || !g_m->on || g_m->stack.empty()) return; sim::Oracle g; int i = g_m->by_idx(g_m->stack.back()); if (i >= 0) g_m->L[i].mask = flat_nb(m); }
	void fprop_preLRDropout4NesterovMomentum(const mtx&, const R, const mtx& m) const noexcept { if (!g_m || !g_m->on || g_m->stack.empty()) return; sim::Oracle g; int i = g_m->by_idx(g_m->stack.back()); if (i >= 0) g_m->L[i].nlrd = flat(m); }
	void apply_grad_begin(const mtx& w, const mtx& d) const noexcept { if (!g_m || !g_m->on) return; sim::Oracle g; const int i = g_m->cur = g_m->by_ptr(w.data()); if (i < 0) sim::fail("update", "weights of an unknown layer are updated"); auto& l = g_m->L[i]; l.ev = true; ++l.events; l.Wg = flat(w); l.g = flat(d); }
	void apply_grad_preLRDropout(const mtx&, const R, const mtx& m) const noexcept { if (!g_m || !g_m->on || g_m->cur < 0) return; sim::Oracle g; g_m->L[g_m->cur].lrd = flat(m); }
};
// predictions and losses of the evaluations
static Cfg* g_cfg; static TrainSpec* g_spec;
template<class R> struct ObsR : Obs<R> {
	typedef typename i_training_observer<R>::realmtx_t realmtx_t; std::vector<V> act; int ds = 0; int64_t nb = 0;
	void report_results_begin(const data_set_id_t d, const numel_cnt_t n) noexcept { sim::Oracle g; act.clear(); ds = (int)d; nb = n; }
	template<class YT, class C> void report_results(const numel_cnt_t, const realmtx_t& a, const math::smatrix<YT>&, const C&) noexcept { sim::Oracle g; for (auto& s : samples(a)) act.push_back(s); }
	void report_results_end(const R loss) noexcept {
		sim::Oracle g; if (!g_m) return; Model& m = *g_m; const Cfg& c = *g_cfg; const int n = ds ? c.m : c.n, b = ds ? TEST0 : 0; if ((int)act.size() != n) sim::fail("evaluation", "%zu predictions for %d samples", act.size(), n);
		std::vector<V> X(n, V(c.xw)), W; for (int i = 0; i < n; ++i) for (int j = 0; j < c.xw; ++j) X[i][j] = (double)(R)xval(c, b + i, j); for (auto& l : m.L) W.push_back(l.get());
		M o = m.forward(X, W, false); double ls = 0; bool sat = false;
		for (int i = 0; i < n; ++i) for (int j = 0; j < c.yw; ++j) { const double a = m.t.n[o.at(i, j)].v, y = (double)(R)yval(c, b + i, j); if (!m.close(act[i][j], a, 0) && !m.kink) sim::fail("prediction", "output %d of sample %d of set %d is %.12g instead of %.12g", j, i, ds, act[i][j], a); if (m.loss == Quad) ls += .5 * (a - y) * (a - y); else if (m.loss == QuadFP) ls += .5 * (y < .5 && a > y ? m.fpw : m.fpo) * (a - y) * (a - y); else { if (a < 1e-4 || a > 1 - 1e-4) sat = true; ls -= (y > 0 ? y * log(a) : 0) + (m.loss == XEnt && y < 1 ? (1 - y) * log(1 - a) : 0); } }
		sim::probe("evaluation"); if (nb != 1 || sat || m.kink) { act.clear(); act.shrink_to_fit(); return; } // losses of several batches are not comparable: each batch has its own average
		ls /= n; const double base = ls; if (g_spec->full) { ls += m.penalty; for (auto& l : m.L) { const V w = l.get(); for (size_t k = 0; k < w.size(); ++k) { const bool bias = k >= w.size() - l.rows; if (!bias || l.c.l1b) ls += l.c.l1 * fabs(w[k]); if (!bias || l.c.l2b) ls += .5 * l.c.l2 * w[k] * w[k]; } } }
		if (!m.close((double)loss, ls, 0)) { std::string d; for (auto& l : m.L) { char b[99]; double q = 0, r = 0; V w = l.get(); for (size_t k = 0; k < w.size(); ++k) (k >= w.size() - l.rows ? r : q) += w[k] * w[k]; snprintf(b, sizeof b, "; %dx%d sum of squares %g + %g ", l.rows, l.cols, q, r); d += b + lstr(l.c); } sim::fail("loss", "reported loss of set %d is %.12g instead of %.12g, of which %.12g without penalties and %.12g for activations (full %d%s)", ds, (double)loss, ls, base, m.penalty, (int)g_spec->full, d.c_str()); } sim::probe("loss"); act.clear(); act.shrink_to_fit();
	}
	template<class T> void on_training_start(const T&, vec_len_t, vec_len_t, numel_cnt_t) noexcept {}
	void on_training_fragment_end(const numel_cnt_t, const R, const R, const std::chrono::nanoseconds&) noexcept {}
};
template<class R> struct Rw : d_int_nI<R> { typedef RecR<R> iInspect_t; };
template<class R> struct Rs { typedef R real_t; typedef threads::Workers<R, numel_cnt_t, threads::std_sync_primitives> iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef math::MathN<R, iThreads_t, iMemmgr_t> iMath_t; typedef rng::AFRand_mt<R, AFog::CRandomSFMT0, iThreads_t> iRng_t; typedef RecR<R> iInspect_t; };
// ---- descriptions of the architectures -------------------------------------------------------------------------
static Nd fc(int L, Act a, double p1 = 1, double p2 = 1) { Nd n; n.k = FC; n.L = L; n.act = a; n.p1 = p1; n.p2 = p2; return n; }
static Nd drop(Nd n, int dk = 1) { n.dk = dk; return n; }
static Nd with(Nd n, std::vector<Add> a) { n.add = a; return n; }
static Nd outl(Nd n, Loss l) { n.loss = l; return n; }
static Nd seq(std::vector<Nd> c) { Nd n; n.k = VP; n.ch = c; return n; }
static Nd hor(std::vector<Nd> c, std::vector<std::pair<int, int>> co) { Nd n; n.k = HP; n.ch = c; n.co = co; return n; }
static Nd tile(Nd c, int t) { Nd n; n.k = TP; n.ch.push_back(c); n.tiles = t; return n; }
static Nd opt(int gofs, int gcnt, bool notf, std::vector<Nd> c, std::vector<std::pair<int, int>> co) { Nd n; n.k = OP; n.gofs = gofs; n.gcnt = gcnt; n.notf = notf; n.ch = c; n.co = co; return n; }
template<class S, class O> static int li(S& s, O& o) { for (size_t i = 0; i < s.m->L.size(); ++i) if (s.m->L[i].obj == (void*)&o) return (int)i; sim::fail("setup", "layer not found"); return -1; }
template<class S> static Nd describe(AFc*, S& s) { auto& a = *s.a; return seq({ fc(li(s, a.h1), Sigm), fc(li(s, a.h2), Lrelu, .01), outl(fc(li(s, a.out), Sigm), Quad) }); }
template<class S> static Nd describe(ADo*, S& s) { auto& a = *s.a; return seq({ drop(fc(li(s, a.h1), Softsign)), drop(fc(li(s, a.h2), Selu), 2), outl(fc(li(s, a.out), Softmax), SmXEnt) }); }
template<class S> static Nd describe(APh*, S& s) { auto& a = *s.a; return seq({ hor({ fc(li(s, a.a), Softsigm), seq({ fc(li(s, a.b1), Softsigm), fc(li(s, a.b2), Softsigm) }), Nd() }, { { 0, 3 }, { 1, s.c.xw - 1 }, { 2, 2 } }), outl(fc(li(s, a.out), Softsigm), Quad) }); }
template<class S> static Nd describe(APt*, S& s) { auto& a = *s.a; return seq({ fc(li(s, a.u), Elu), tile(fc(li(s, a.t), Elu), s.c.tiles), outl(fc(li(s, a.out), Sigm), XEnt) }); }
template<class S> static Nd describe(APo*, S& s) { auto& a = *s.a; return seq({ opt(1, 2, true, { fc(li(s, a.a), Softsigm), seq({ fc(li(s, a.b1), Softsigm), fc(li(s, a.b2), Softsigm) }) }, { { 0, 1 }, { 3, s.c.xw - 3 } }), outl(fc(li(s, a.out), Sigm), Quad) }); }
template<class S> static Nd describe(APa*, S& s) { auto& a = *s.a; const double n = s.c.addn; return seq({ with(fc(li(s, a.h1), Softsign), { { 2, n, false }, { 0, n, false } }), drop(with(fc(li(s, a.h2), Sigm), { { 1, n, false } })), outl(fc(li(s, a.out), Sigm), Quad) }); }
template<class F> static void tune_arch(F&, Model&) {}
template<class L, class R> static auto set_dpa(L& l, Ly& y, R v, int) -> decltype((void)l.dropoutPercentActive(v)) { l.dropoutPercentActive(v); y.dpa = (double)v; }
template<class L, class R> static void set_dpa(L&, Ly&, R, long) {}
// ---- the scenario -------------------------------------------------------------------------------------------------
template<class A, class I> struct RSys : Sys<A, I> {
	typedef Sys<A, I> B; typedef typename I::real_t R; Model* m;
	RSys(const Cfg& c) : B(c) {
		{ sim::Oracle g; m = new Model; m->fl = sizeof(R) == 4; m->tol = m->fl ? 2e-3 : 1e-8; }
		const bool shared = sim::chance(.3); LCfg one = draw_lcfg(); one.frozen = false;
		this->a->lp.for_each_layer_exc_input([&](auto& l) noexcept { typedef std::decay_t<decltype(l)> LT; if constexpr (layer_has_gradworks<LT>::value) { LCfg lc = shared ? one : draw_lcfg(); round_cfg(lc); gw_set<std::decay_t<decltype(l.get_gradWorks())>, R>(l.get_gradWorks(), lc); if (lc.frozen) l._setUpdateWeights(false); sim::Oracle g; Ly y; y.obj = (void*)&l; y.idx = (int)l.get_layer_idx(); y.c = lc; y.rows = (int)l.get_neurons_cnt(); y.cols = (int)l.get_incoming_neurons_cnt() + 1; y.get = [&l] { return flat(l.get_weights()); }; y.ptr = [&l]() -> const void* { return l.get_weights().data(); }; y.dpa = (double)(R)this->c.dpa; m->L.push_back(y); } });
		sim::Oracle g; m->net = describe((A*)nullptr, *this); m->loss = m->net.ch.back().loss; m->oact = m->net.ch.back().act;
	}
	static void round_cfg(LCfg& c) { for (double* d : { &c.lr, &c.mom, &c.l1, &c.l2, &c.mn, &c.lrd, &c.b1, &c.b2, &c.eps, &c.gamma, &c.dec, &c.inc, &c.lo, &c.hi }) *d = (double)(R)*d; }
	~RSys() { sim::Oracle g; delete m; }
	template<class CB> typename B::EC train(const TrainSpec& s, CB&& cb) { nnet_train_opts<R, ObsR<R>> o(s.epochs, s.evals); o.batchSize(s.bs); if (s.fs) o.maxFpropSize(s.fs); o.calcFullLossValue(s.full).noDivergenceCheck(); if (sim::chance(.1)) { o.bReportOnlyTime(true); sim::probe("time-only"); } return this->nn->train(*this->td, o, cb); }
};
template<class A, class I> static void t_ref() {
	typedef typename I::real_t R; Cfg c = draw_cfg(12); c.onehot = A::onehot || std::is_same<A, APt>::value; /* cross entropy is defined for binary targets */ c.epochs = (int)sim::rng(1, 3); sim::context("%s %s", A::name, c.str().c_str()); auto* s = new RSys<A, I>(c); TrainSpec sp = spec_of(c); g_cfg = &c; g_spec = &sp;
	if (sim::chance(.15)) { const double b = sim::chance(.5) ? .05 : .3; s->a->out.restrict_dL_dZ((R)-b, (R)b); s->m->clo = (double)(R)-b; s->m->chi = (double)(R)b; }
	for (auto& y : s->m->L) if (y.c.l1 || y.c.l2) s->m->la0 = true;
	const bool sched = sim::chance(.4); g_m = s->m;
	auto cb = [&](numel_cnt_t) noexcept { if (sched) s->a->lp.for_each_layer_exc_input([&](auto& l) noexcept { typedef std::decay_t<decltype(l)> LT; if constexpr (layer_has_gradworks<LT>::value) { Ly& y = s->m->L[li(*s, l)]; auto& gw = l.get_gradWorks(); // settings may be changed between epochs
		const int what = (int)sim::rnd(7); if (what == 0) { gw.learning_rate(gw.learning_rate() * (R).5); y.c.lr = (double)gw.learning_rate(); } else if (what == 1 && y.c.mom > 0) { y.c.mom = (double)(R).3; if (y.c.nest) gw.nesterov_momentum((R).3); else gw.momentum((R).3); } else if (what == 2 && s->m->la0) { /* the library counts penalties only if some were enabled when the training started */ y.c.l2 = (double)(R).03; y.c.l2b = !y.c.l2b; gw.L2((R).03, !y.c.l2b); } else if (what == 4 && y.dpa < 1) set_dpa(l, y, (R)(sim::chance(.5) ? .5 : .9), 0); else if (what == 3 && !y.c.frozen) { y.c.mn = .5; y.c.mnb = true; gw.max_norm2((R).5, true); } } }); return true; };
	auto ec = s->train(sp, cb);
	if (!(int)ec && sim::chance(.25)) { // a second training goes on with the state of the optimisers unless the network was deinitialised
		if (sim::chance(.5)) { s->nn->deinit(); sim::Oracle g; s->m->la0 = false; for (auto& y : s->m->L) { if (y.c.l1 || y.c.l2) s->m->la0 = true; y.first = true; y.Vw.clear(); y.b1t = y.b2t = 1; } }
		sim::probe("second-training"); sp.epochs = 1; ec = s->train(sp, cb);
	}
	g_m = nullptr; if ((int)ec) sim::fail("training-failed", "training failed: %s", s->nn->get_error_str(ec));
	sim::probe(s->m->batches > 3 ? "long" : "short"); auto w = s->weights(); sim::note_bytes(w.data(), w.size() * sizeof(R)); delete s;
}
