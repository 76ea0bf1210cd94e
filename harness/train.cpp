// Complete trainings: P11 reproducibility, P12 batches, P13 allocation failures, P14 independence of history, P04 races and memory errors
#include "nets.h"
namespace sim { std::ostream nullout(nullptr); }
static Log* fresh_log() { sim::Oracle g; delete g_log; g_log = new Log; return g_log; }
static Log* take_log() { Log* l = g_log; g_log = nullptr; return l; }
static void drop_log(Log* l) { sim::Oracle g; delete l; }

// ---- P12: what a training and its evaluations see of the data ---------------------------------------------------
// one training recorded in l: batches of every epoch and every evaluation
template<class R> static void check_training_log(const Log& l, const Cfg& c, const TrainSpec& s, bool success) {
	sim::Oracle g; const int bs = s.bs <= 0 || s.bs > c.n ? c.n : s.bs; const int big = std::max(c.n, c.m), fs = s.fs <= 0 || s.fs > big ? big : s.fs;
	if (l.bs != bs || l.fs != fs) sim::fail("batch-size", "asked for training batches of %d and evaluation batches of %d, told the observer %ld and %ld", bs, fs, (long)l.bs, (long)l.fs);
	if (success && (int)l.epoch_batches.size() != s.epochs) sim::fail("epoch-count", "%zu epochs instead of %d", l.epoch_batches.size(), s.epochs);
	for (size_t e = 0; e < l.epoch_batches.size(); ++e) {
		const size_t b0 = l.epoch_first[e], b1 = e + 1 < l.epoch_first.size() ? l.epoch_first[e + 1] : l.batches.size(); std::set<int> seen;
		if ((int64_t)(b1 - b0) != c.n / bs || l.epoch_batches[e] != c.n / bs) sim::fail("batch-count", "epoch %zu: %zu batches (announced %ld) instead of %d", e, b1 - b0, (long)l.epoch_batches[e], c.n / bs);
		for (size_t b = b0; b < b1; ++b) {
			auto& B = l.batches[b]; if ((int)B.x.size() != bs || (int)B.y.size() != bs) sim::fail("batch-size", "epoch %zu batch %zu: %zu samples and %zu targets instead of %d", e, b - b0, B.x.size(), B.y.size(), bs); if (!B.bias) sim::fail("batch-data", "epoch %zu batch %zu: biases are not ones", e, b - b0);
			for (int i = 0; i < bs; ++i) { int id = B.x[i].empty() ? -1 : id_of(B.x[i][0]); if (id < 0 || id >= c.n) sim::fail("batch-data", "epoch %zu batch %zu row %d is no sample of the training set (%g)", e, b - b0, i, B.x[i][0]); if (!seen.insert(id).second) sim::fail("sample-repeated", "epoch %zu: sample %d is used twice", e, id); check_sample<R>(c, &B.x[i], &B.y[i], id, "training batch"); }
		}
	}
	const size_t nr = 2 * (1 + (s.evals || s.diverge ? l.epoch_batches.size() : 1)); if (success && l.reports.size() != nr) sim::fail("report-count", "%zu evaluations instead of %zu", l.reports.size(), nr);
	for (size_t r = 0; r < l.reports.size(); ++r) {
		auto& P = l.reports[r]; const int n = P.ds ? c.m : c.n, b0 = P.ds ? TEST0 : 0; if (P.ds != (int)(r % 2)) sim::fail("report-order", "evaluation %zu is of set %d", r, P.ds);
		if (P.batches != (n + std::min(fs, n) - 1) / std::min(fs, n)) sim::fail("walk-count", "evaluation of %d samples by at most %d announced %ld batches", n, fs, (long)P.batches);
		if ((int)P.y.size() != n || (int)P.act.size() != n) sim::fail("walk-coverage", "evaluation of set %d covers %zu of %d samples (batches of at most %d)", P.ds, P.y.size(), n, fs);
		for (int i = 0; i < n; ++i) check_sample<R>(c, nullptr, &P.y[i], b0 + i, "evaluation");
	}
	if (l.inits != 1 || l.deinits != 1 || l.starts != 1 || (success && l.ends != 1)) sim::fail("observer-calls", "observer saw %d inits, %d deinits, %d starts, %d ends", l.inits, l.deinits, l.starts, l.ends);
}
template<class A, class I> static void t_batches() {
	Cfg c = draw_cfg(); c.onehot = A::onehot; if (sim::chance(.3)) { c.opt = 0; } TrainSpec s = spec_of(c); s.diverge = sim::chance(.5); s.deinit = sim::chance(.3);
	const bool tr = sim::chance(.25); (void)tr; sim::context("%s %s", A::name, c.str().c_str());
	auto* sys = new Sys<A, I>(c); fresh_log(); auto ec = sys->train(s); Log* l = take_log();
	if (ec != Sys<A, I>::EC::Success && ec != Sys<A, I>::EC::NNDiverged) sim::fail("training-failed", "training failed: %s", sys->nn->get_error_str(ec));
	sim::probe(ec == Sys<A, I>::EC::Success ? "trained" : "diverged"); check_training_log<typename I::real_t>(*l, c, s, ec == Sys<A, I>::EC::Success); check_td<typename I::real_t>(*sys->td, c); sim::note(l->batches.size()); drop_log(l); delete sys;
}

// ---- P11: two trainings from the same seed ------------------------------------------------------------------------
template<class R> static void same_weights(const std::vector<R>& a, const std::vector<R>& b, const char* what) { sim::Oracle g; int64_t d = first_diff(a, b); if (d == -2) sim::fail(what, "%zu and %zu weights", a.size(), b.size()); if (d >= 0) sim::fail(what, "weight %ld of %zu differs: %.17g and %.17g", (long)d, a.size(), (double)a[d], (double)b[d]); }
template<class A, class I> static void t_repro() {
	Cfg c = draw_cfg(); c.onehot = A::onehot; sim::context("%s %s", A::name, c.str().c_str()); typedef typename I::real_t R;
	std::vector<R>* w[2]; Log* l[2]; int ec[2];
	for (int k = 0; k < 2; ++k) {
		auto* s = new Sys<A, I>(c); if (k && sim::chance(.5)) { typename I::real_t junk[7]; s->nn->get_iRng().gen_vector(junk, 7, (R)1); s->nn->get_iRng().seed64((int64_t)c.seed); }
		fresh_log(); ec[k] = (int)s->train(); l[k] = take_log(); { auto v = s->weights(); sim::Oracle g; w[k] = new std::vector<R>(v); } delete s; sim::knobs().fill = (uint8_t)sim::rnd(256);
	}
	sim::probe(ec[0] ? "failed" : "trained"); if (ec[0] != ec[1]) sim::fail("not-reproducible", "training returned %d and %d", ec[0], ec[1]); same_logs(*l[0], *l[1]); same_weights(*w[0], *w[1], "not-reproducible"); sim::note_bytes(w[0]->data(), w[0]->size() * sizeof(R));
	for (int k = 0; k < 2; ++k) { drop_log(l[k]); sim::Oracle g; delete w[k]; }
}
// ---- P14: nothing but weights, settings, data and seed decides what happens ------------------------------------------
template<class R> static math::smatrix_deform<R>* make_x(const Cfg& c, int b0, int n) { auto* x = new math::smatrix_deform<R>; x->will_emulate_biases(); if (!x->resize(n, c.xw)) sim::fail("setup", "no memory"); sim::Oracle g; for (int i = 0; i < n; ++i) for (int j = 0; j < c.xw; ++j) x->data()[(size_t)j * n + i] = (R)xval(c, b0 + i, j); return x; }
template<class S> static void check_predictions(S& s, const char* what, bool fixed = false) { // predictions of any batch are those of a new network with the same weights
	typedef typename S::R R; const int n = (int)sim::rng(1, 30), b0 = (int)sim::rnd(100); auto* x = make_x<R>(s.c, b0, n); auto w0 = s.weights(); std::vector<std::vector<double>> out[2]; const int rep = sim::chance(.3) ? 2 : 1;
	for (int k = 0; k < rep; ++k) { if (fixed) { if (s.nn->init4fixedBatchFprop(n) != S::EC::Success) sim::fail("inference-failed", "%s: network refuses a batch of %d samples", what, n); s.nn->doFixedBatchFprop(*x); } else if (s.nn->fprop(*x) != S::EC::Success) sim::fail("inference-failed", "%s: network refuses a batch of %d samples", what, n); sim::Oracle g; auto o = samples(*s.a->lp.output_layer().get_activations_storage()); if (k && o != out[0]) sim::fail("history-dependent", "%s: the same batch of %d gets other predictions the second time", what, n); out[0] = o; }
	if (!w0.empty() && first_diff(w0, s.weights()) != -1) sim::fail("weights-changed", "%s: inference changed the weights", what);
	auto* f = new S(s.c); f->adopt_weights(s); if (f->nn->fprop(*x) != S::EC::Success) sim::fail("inference-failed", "new network refuses a batch of %d samples", n);
	{ sim::Oracle g; out[1] = samples(*f->a->lp.output_layer().get_activations_storage()); if ((int)out[0].size() != n) sim::fail("history-dependent", "%s: %zu predictions for %d samples", what, out[0].size(), n); for (int i = 0; i < n; ++i) if (first_diff(out[0][i], out[1][i]) != -1) sim::fail("history-dependent", "%s: prediction %d of a batch of %d differs from that of a new network with the same weights", what, i, n); }
	delete f; delete x; sim::probe("predictions"); sim::Oracle g; out[0].clear(); out[1].clear(); out[0].shrink_to_fit(); out[1].shrink_to_fit(); std::vector<R>().swap(w0);
}
static void redraw_batches(const Cfg& c, TrainSpec& s) { s.bs = sim::chance(.2) ? 0 : (int)sim::rng(1, c.n); s.fs = 0; if (s.bs && sim::chance(.5)) s.fs = (int)sim::rng(s.bs, std::max(c.n, c.m)); if (s.fs && s.fs < s.bs) s.fs = s.bs; s.epochs = (int)sim::rng(1, 2); s.evals = sim::chance(.5); s.full = sim::chance(.5); s.diverge = sim::chance(.3); }
template<class A, class I> static void t_history() {
	typedef typename I::real_t R; typedef Sys<A, I> S; Cfg c = draw_cfg(16); c.onehot = A::onehot; if (sim::chance(.6)) { c.opt = 0; c.mom = 0; c.ilr = false; } const bool stateless = c.opt == 0 && c.mom == 0 && !c.ilr; sim::context("%s %s", A::name, c.str().c_str()); TrainSpec s1 = spec_of(c); s1.deinit = sim::chance(.4); s1.diverge = false;
	auto* s = new S(c); bool same_td = false;
	if (sim::chance(.25)) check_predictions(*s, "untrained network", sim::chance(.5));
	if (sim::keep_op()) { if (s->train(s1) != S::EC::Success) sim::fail("training-failed", "first training failed"); same_td = true; if (sim::chance(.5)) check_predictions(*s, "after training", sim::chance(.3)); }
	for (int round = 0, nr = (int)sim::rng(1, 2); round < nr; ++round) if (sim::keep_op()) {
		if (!same_td) { if (s->train(s1) != S::EC::Success) sim::fail("training-failed", "first training failed"); same_td = true; }
		TrainSpec s2 = s1; redraw_batches(c, s2); s2.deinit = sim::chance(.4); s2.reinit = sim::chance(.7); if (!s2.reinit) { if (!s2.bs) s2.bs = c.n; if (!s2.fs) s2.fs = std::max(c.n, c.m); } bool cleared = s1.deinit; if (sim::chance(.15)) { s->nn->deinit(); cleared = true; }
		const bool cmp = (stateless || cleared) && (s2.reinit || s1.deinit); S* f = nullptr; Log *l = nullptr, *lf = nullptr; int ef = 0; const bool disturb = sim::chance(.3); const int64_t seed = (int64_t)sim::rnd(100000);
		if (cmp) { f = new S(c); f->adopt_weights(*s); f->nn->get_iRng().seed64(seed); fresh_log(); ef = (int)f->train(s2); lf = take_log(); sim::probe("compared"); }
		s->nn->get_iRng().seed64(seed); fresh_log(); int ec; bool disturbed = false;
		if (disturb) { // the epoch callback uses the network for predictions
			const int fs = s2.fs <= 0 ? std::max(c.n, c.m) : s2.fs; auto* x = make_x<R>(c, 50, (int)sim::rng(1, fs)); ec = (int)s->train(s2, [&](numel_cnt_t) noexcept { Log* keep = take_log(); if (s->nn->fprop(*x) != S::EC::Success) sim::fail("inference-failed", "network refuses a batch of %d samples between epochs", (int)x->rows()); g_log = keep; disturbed = true; return true; }); delete x; sim::probe("disturbed"); }
		else ec = (int)s->train(s2);
		l = take_log(); if (ec != (int)S::EC::Success && ec != (int)S::EC::NNDiverged) sim::fail("training-failed", "training number %d failed: %s", round + 2, s->nn->get_error_str((typename S::EC)ec));
		check_training_log<R>(*l, c, s2, ec == (int)S::EC::Success); check_td<R>(*s->td, c);
		if (cmp) { if (ec != ef) sim::fail("history-dependent", "training number %d returned %d, that of a new network with the same weights %d", round + 2, ec, ef); same_logs(*l, *lf, "history-dependent"); same_weights(s->weights(), f->weights(), "history-dependent"); drop_log(lf); delete f; }
		drop_log(l); s1 = s2; if (sim::chance(.6)) check_predictions(*s, "after further training", sim::chance(.3));
	}
	{ auto w = s->weights(); sim::note_bytes(w.data(), w.size() * sizeof(R)); } delete s;
}
// evaluations, loss options, the observer's presence in every epoch and predictions between epochs leave no trace in the weights
template<class A, class I> static void t_evals() {
	typedef typename I::real_t R; typedef Sys<A, I> S; Cfg c = draw_cfg(16); c.onehot = A::onehot; c.epochs = (int)sim::rng(1, 3); sim::context("%s %s", A::name, c.str().c_str()); TrainSpec s0 = spec_of(c); s0.diverge = false; std::vector<R>* w0 = nullptr; Log* l0 = nullptr;
	for (int k = 0; k < 2; ++k) {
		TrainSpec s = s0; if (k) { s.evals = !s.evals; s.full = sim::chance(.5); s.fs = s.fs ? (sim::chance(.5) ? 0 : (int)sim::rng(s.fs, std::max({ c.n, c.m, s.fs }))) : s.bs && sim::chance(.5) ? (int)sim::rng(s.bs, std::max({ c.n, c.m, s.bs })) : 0; }
		auto* y = new S(c); fresh_log(); int ec; if (k && sim::chance(.5)) { auto* x = make_x<R>(c, 10, 1); ec = (int)y->train(s, [&](numel_cnt_t) noexcept { Log* keep = take_log(); y->nn->fprop(*x); g_log = keep; return true; }); delete x; } else ec = (int)y->train(s);
		Log* l = take_log(); if (ec) sim::fail("training-failed", "training failed: %s", y->nn->get_error_str((typename S::EC)ec)); auto w = y->weights(); delete y;
		if (!k) { sim::Oracle g; w0 = new std::vector<R>(w); l0 = l; } else { { sim::Oracle g; for (size_t i = 0; i < l0->batches.size() && i < l->batches.size(); ++i) if (l0->batches[i].x != l->batches[i].x) sim::fail("evaluation-interferes", "training batch %zu depends on evaluations", i); } same_weights(*w0, w, "evaluation-interferes"); drop_log(l); }
	}
	sim::probe("compared"); drop_log(l0); sim::note_bytes(w0->data(), w0->size() * sizeof(R)); sim::Oracle g; delete w0;
}
// A training that is refused (a data set that does not fit the network or is empty, the
// caller's own veto) says why, changes nothing, and the next one goes as if it had not been asked for; a training the callback stops is a shorter training.
template<class A, class I> static void t_refused() {
	typedef typename I::real_t R; typedef Sys<A, I> S; typedef typename S::EC EC; typedef typename S::TD TD; Cfg c = draw_cfg(14); c.onehot = A::onehot; c.opt = 0; c.mom = 0; c.ilr = false; sim::context("%s %s", A::name, c.str().c_str());
	TrainSpec s1 = spec_of(c); s1.diverge = false; S* s = new S(c); { auto* w = new S(c); if (w->train(s1) != EC::Success) sim::fail("setup", "training failed"); s->adopt_weights(*w); delete w; }
	bool had = false; if (sim::chance(.5)) { had = true; s1.deinit = sim::chance(.3); if (s->train(s1) != EC::Success) sim::fail("training-failed", "training failed"); }
	for (int round = 0, nr = (int)sim::rng(1, 3); round < nr; ++round) if (sim::keep_op()) {
		auto w0 = s->weights(); const int kind = (int)sim::rnd(5); EC want = EC::Success; TrainSpec q = s1; redraw_batches(c, q); q.deinit = sim::chance(.3); Cfg c2 = c; TD* td = s->td; int stop = -1; bool veto = false; static const char* names[] = { "a data set of another width", "targets of another width", "an empty data set", "a veto of the initialisation callback", "a stop by the epoch callback" };
		if (kind < 2) { if (kind) c2.yw += sim::chance(.5) ? 1 : -1; else c2.xw += sim::chance(.5) ? 1 : -1; td = new TD; if (!fill_td(*td, c2)) sim::fail("setup", "data set rejected"); want = kind ? EC::InvalidOutputLayerNeuronsCount : EC::InvalidInputLayerNeuronsCount; }
		else if (kind == 2) { td = new TD; want = EC::InvalidTD; }
		else if (kind == 3) { veto = true; want = (EC)(sim::chance(.5) ? (int)EC::PostInitStopFromCallback : (int)sim::rng(1, (int)EC::PostInitStopFromCallback)); }
		else { q.epochs = (int)sim::rng(2, 4); stop = (int)sim::rnd(q.epochs - 1); q.reinit = true; }
		if (!q.reinit && !had) q.reinit = true; const int64_t seed = (int64_t)sim::rnd(100000); s->nn->get_iRng().seed64(seed); int inits = 0; fresh_log();
		nnet_train_opts<R, Obs<R>> o(q.epochs, q.evals); o.batchSize(q.bs); if (q.fs) o.maxFpropSize(q.fs); o.calcFullLossValue(q.full).bForceReinitTD(q.reinit).ImmediatelyDeinit(q.deinit).noDivergenceCheck();
		const EC ec = s->nn->train(*td, o, [&](numel_cnt_t e) noexcept { return (int)e != stop; }, [&]() noexcept { ++inits; return veto ? want : EC::Success; }); Log* l = take_log();
		if (ec != want) sim::fail("refusal-code", "%s: training returned %d (%s) instead of %d", names[kind], (int)ec, s->nn->get_error_str(ec), (int)want); if (ec != EC::Success && s->nn->get_last_error() != want) sim::fail("refusal-code", "%s: last error is %d instead of %d", names[kind], (int)s->nn->get_last_error(), (int)want);
		if (inits != (kind >= 3)) sim::fail("init-callback", "%s: initialisation callback was called %d times", names[kind], inits);
		sim::probe(names[kind]); if (kind != 4) { if (!l->batches.empty() || !l->reports.empty() || l->inits || l->starts) sim::fail("refused-but-trained", "%s: %zu batches trained, %zu evaluations, %d observer initialisations", names[kind], l->batches.size(), l->reports.size(), l->inits); same_weights(w0, s->weights(), "refusal-leaves-traces"); }
		else { TrainSpec q1 = q; q1.epochs = stop + 1; auto* f = new S(c); { auto* w = new S(c); if (w->train(spec_of(c)) != EC::Success) sim::fail("setup", "training failed"); w->poke_weights(w0); f->adopt_weights(*w); delete w; } f->nn->get_iRng().seed64(seed); q1.diverge = false; fresh_log(); if (f->train(q1) != EC::Success) sim::fail("training-failed", "training failed"); Log* lf = take_log();
			{ sim::Oracle g; if (l->batches.size() != lf->batches.size() || l->ends != 1) sim::fail("stopped-training", "training stopped after epoch %d saw %zu batches instead of %zu, %d ends", stop, l->batches.size(), lf->batches.size(), l->ends); for (size_t i = 0; i < l->batches.size(); ++i) if (l->batches[i].x != lf->batches[i].x || l->batches[i].y != lf->batches[i].y) { sim::probe("other-batches"); if (q.evals) break; sim::fail("stopped-training", "training batch %zu differs", i); } }
			same_weights(f->weights(), s->weights(), "stopped-training"); delete f; drop_log(lf); had = true; }
		drop_log(l); if (td != s->td) { if (kind < 2) check_td<R>(*td, c2); delete td; } if (kind >= 2 && kind != 4) had = false; // the data set is not initialised any more
	}
	{ TrainSpec s2 = s1; redraw_batches(c, s2); s2.reinit = true; auto* f = new S(c); f->adopt_weights(*s); const int64_t seed = (int64_t)sim::rnd(100000); f->nn->get_iRng().seed64(seed); fresh_log(); int ef = (int)f->train(s2); Log* lf = take_log(); s->nn->get_iRng().seed64(seed); fresh_log(); int es = (int)s->train(s2); Log* l = take_log();
		if (ef != es) sim::fail("refusal-leaves-traces", "the next training returned %d instead of %d", es, ef); if (ef) sim::fail("training-failed", "training failed: %d", ef); same_logs(*lf, *l, "refusal-leaves-traces"); same_weights(f->weights(), s->weights(), "refusal-leaves-traces"); check_training_log<R>(*l, c, s2, true); check_td<R>(*s->td, c); delete f; drop_log(l); drop_log(lf); }
	{ auto w = s->weights(); sim::note_bytes(w.data(), w.size() * sizeof(R)); } delete s;
}
// ---- P13: allocation failures ------------------------------------------------------------------------------------------
// A call that runs out of memory says so, and leaves the objects usable: repeated with enough memory it gives what a network that never failed gives.
template<class A, class I> static void t_oom() {
	typedef typename I::real_t R; typedef Sys<A, I> S; Cfg c = draw_cfg(14); c.onehot = A::onehot; c.epochs = 1; sim::context("%s %s", A::name, c.str().c_str()); TrainSpec sp = spec_of(c); sp.diverge = false; sp.deinit = sim::chance(.3); sp.reinit = sim::chance(.7); const int how = (int)sim::rnd(4); const int64_t seed = 1 + (int64_t)sim::rnd(10000); const bool fixedw = sim::chance(.7);
	S* w = new S(c); { if (w->train(spec_of(c)) != S::EC::Success) sim::fail("setup", "training failed"); } // somebody to take weights from
	std::vector<R>* ref = nullptr; Log* lref = nullptr; std::vector<std::vector<double>>* oref = nullptr; auto* x = make_x<R>(c, 20, (int)sim::rng(1, 12));
	const uint64_t l0 = sim::live_blocks();
	for (int k = 0; k < 2; ++k) {
		S* s = new S(c); if (fixedw) s->adopt_weights(*w); bool warm = how == 3; if (warm) { TrainSpec q = sp; q.reinit = true; q.bs = std::max(1, (sp.bs ? sp.bs : c.n) / 2); q.fs = sp.bs && sp.fs ? std::max(q.bs, sp.fs / 2) : 0; if (s->train(q) != S::EC::Success) sim::fail("setup", "training failed"); s->nn->deinit(); s->td->deinit4all(); if (fixedw) s->poke_weights(w->weights()); }
		auto call = [&](bool hurt) -> int { if (how == 0 || how == 3) { s->hurt = hurt; return (int)s->train(sp); } if (hurt) sim::alloc_faults(true); int e; if (how == 1) e = (int)s->nn->fprop(*x); else { vec_len_t b = (vec_len_t)std::max(1, sp.bs); e = (int)s->nn->init4fixedBatchFprop(*s->td, b); } if (hurt) sim::alloc_faults(false); return e; };
		int tries = 0, ec = -1; bool failed = false;
		do {
			s->nn->get_iRng().seed64(seed); fresh_log(); const bool hurt = k && ++tries <= 2; const auto f0 = sim::alloc_failures(); ec = call(hurt); const bool f = sim::alloc_failures() != f0; Log* l = take_log();
			if (ec && !f) sim::fail(k ? "not-usable-after-failure" : "training-failed", "%s failed with code %d (%s) although memory was available", how == 0 || how == 3 ? "training" : "inference", ec, s->nn->get_error_str((typename S::EC)ec));
			if (ec) { sim::probe("reported"); failed = true; if ((int)s->nn->get_last_error() == 0) sim::fail("failure-hidden", "the call returned error %d but the last error is success", ec); drop_log(l); continue; }
			if (f) sim::probe("survived");
			if (!k) { sim::Oracle g; lref = l; } else {
				const bool cmp = fixedw || !failed; // with weights left to chance a failed attempt may have drawn some of them already
				if (cmp && (how == 0 || how == 3)) { same_logs(*lref, *l, "failure-leaves-traces"); } if (how == 0 || how == 3) check_training_log<R>(*l, c, sp, true); drop_log(l); }
		} while (ec);
		std::vector<std::vector<double>> o; if (how == 1) { sim::Oracle g; o = samples(*s->a->lp.output_layer().get_activations_storage()); }
		if (how == 2) { const int b = std::max(1, sp.bs); auto& cd = s->nn->get_const_common_data(); const auto nb = s->td->walk_over_set(0, cd, 0); for (int64_t i = 0; i < nb; ++i) { s->td->next_subset(i, cd); s->nn->doFixedBatchFprop(s->td->batchX()); sim::Oracle g; if ((int)samples(s->td->batchX()).size() != std::min<int>(b, c.n - (int)i * b)) sim::fail("failure-leaves-traces", "walk after a failure gives %zu samples instead of %d", samples(s->td->batchX()).size(), b); auto q = samples(*s->a->lp.output_layer().get_activations_storage()); o.insert(o.end(), q.begin(), q.end()); } }
		auto v = s->weights(); check_td<R>(*s->td, c); delete s;
		{ sim::Oracle g; if (!k) { ref = new std::vector<R>(v); oref = new std::vector<std::vector<double>>(o); } else if (fixedw || !failed) { same_weights(*ref, v, "failure-leaves-traces"); if (o.size() != oref->size()) sim::fail("failure-leaves-traces", "other predictions after a failed attempt"); for (size_t i = 0; i < o.size(); ++i) if (first_diff(o[i], (*oref)[i]) != -1) sim::fail("failure-leaves-traces", "prediction %zu differs after a failed attempt", i); } o.clear(); o.shrink_to_fit(); std::vector<R>().swap(v); }
		if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated", (long long)(sim::live_blocks() - l0));
	}
	delete w; delete x; drop_log(lref); sim::Oracle g; delete ref; delete oref;
}
static void tune_oom(sim::Knobs& k) { static const double p[] = { .02, .08, .3 }; k.p_allocfail = p[sim::rnd(3)]; k.max_allocfail = 1 + (unsigned)sim::rnd(3); k.fail_throwing = true; k.throw_min = 48; }
#ifndef TRAIN_ARCHS
#define TRAIN_ARCHS(X) X(AFc) X(ADo) X(APh) X(APt) X(APo) X(APa)
#endif
#define S11(A) static void rf_##A() { t_repro<A, Iw<float>>(); } SIM_SCENARIO(P11, A##_f, rf_##A, nullptr, 2) static void rd_##A() { t_repro<A, Is<double>>(); } SIM_SCENARIO(P11, A##_d, rd_##A, nullptr, 1)
#define S12(A) static void bf_##A() { t_batches<A, Iw<float>>(); } SIM_SCENARIO(P12, A, bf_##A, nullptr, 1)
TRAIN_ARCHS(S11)
TRAIN_ARCHS(S12)
#define S14(A) static void hf_##A() { t_history<A, Iw<float>>(); } SIM_SCENARIO(P14, A##_history, hf_##A, nullptr, 2) static void ef_##A() { t_evals<A, Is<double>>(); } SIM_SCENARIO(P14, A##_evals, ef_##A, nullptr, 1)
TRAIN_ARCHS(S14)
static void rq_AFc() { t_refused<AFc, Iw<float>>(); } SIM_SCENARIO(P14, AFc_refused, rq_AFc, nullptr, 2)
static void rq_APh() { t_refused<APh, Is<double>>(); } SIM_SCENARIO(P14, APh_refused, rq_APh, nullptr, 2)
#define S13(A) static void of_##A() { t_oom<A, Iw<float>>(); } SIM_SCENARIO(P13, A##_f, of_##A, tune_oom, 2) static void od_##A() { t_oom<A, Is<double>>(); } SIM_SCENARIO(P13, A##_d, od_##A, tune_oom, 1)
TRAIN_ARCHS(S13)
#define S04(A) static void mf_##A() { t_batches<A, Is<double>>(); } SIM_SCENARIO(P04, train_##A, mf_##A, nullptr, 1)
TRAIN_ARCHS(S04)
