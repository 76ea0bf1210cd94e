// Data sets driven directly: batches of epochs, walks over sets, evaluators and run-time transformations (P12)
#include "nets.h"
#include <nntl/train_data/transf_train_data.h>
typedef inmem_train_data<float>::nnet_errors_t NE;
namespace sim { std::ostream nullout(nullptr); }

template<class I> struct Env { // everything a data set needs besides itself
	typename I::iMath_t* m; typename I::iRng_t* r; typename I::iInspect_t* ins; bool b; _impl::common_nn_data<I>* cd;
	Env(uint64_t seed) { global_denormalized_floats_mode(); m = new typename I::iMath_t; r = new typename I::iRng_t; r->init_ithreads(m->ithreads()); r->seed64((int64_t)seed); ins = new typename I::iInspect_t; b = false; cd = new _impl::common_nn_data<I>(*m, *r, *ins, b); }
	~Env() { delete cd; delete ins; delete r; delete m; }
};
static const char* lay(bool rx, bool ry) { return rx ? ry ? "rows,rows" : "rows,columns" : ry ? "columns,rows" : "columns,columns"; }
// a delivered batch is samples ids[0..n) in this order; k samples are made of each stored one
template<class R, class TD> static void check_batch(const TD& td, const Cfg& c, const std::vector<int>& ids, int excl, const char* where, std::set<int>* uniq = nullptr, int k = 0) {
	sim::Oracle g;
	if (!(excl & TD::flag_exclude_dataX)) {
		auto& X = td.batchX(); auto xs = samples(X); if (!X.emulatesBiases() || !biases_ok(X)) sim::fail("batch-data", "%s: biases are not ones", where); if (!ids.empty() && xs.size() != ids.size()) sim::fail("batch-size", "%s: %zu samples instead of %zu", where, xs.size(), ids.size());
		for (size_t i = 0; i < xs.size(); ++i) { int id = xs[i].empty() ? -1 : id_of(xs[i][0]); if (!ids.empty() && id != ids[i]) sim::fail("batch-order", "%s: row %zu is sample %d instead of %d", where, i, id, ids[i]); if (ids.empty() && (id < 0 || id >= c.n)) sim::fail("batch-data", "%s: row %zu is no sample of the training set", where, i); if (k > 0) { if ((int)xs[i].size() != c.xw + 1 || xs[i].back() != (double)(i % k)) sim::fail("batch-data", "%s: row %zu is not variant %zu of its sample", where, i, i % k); xs[i].pop_back(); } check_sample<R>(c, &xs[i], nullptr, id, where); if (uniq && (k < 1 || i % k == 0) && !uniq->insert(id).second) sim::fail("sample-repeated", "%s: sample %d is used twice in an epoch", where, id); }
		if (!(excl & TD::flag_exclude_dataY)) { auto ys = samples(td.batchY()); if (ys.size() != xs.size()) sim::fail("batch-size", "%s: %zu samples and %zu targets", where, xs.size(), ys.size()); for (size_t i = 0; i < ys.size(); ++i) check_sample<R>(c, nullptr, &ys[i], id_of(xs[i][0]), where); }
	} else if (!(excl & TD::flag_exclude_dataY)) { auto ys = samples(td.batchY()); if (ys.size() != ids.size()) sim::fail("batch-size", "%s: %zu targets instead of %zu", where, ys.size(), ids.size()); for (size_t i = 0; i < ys.size(); ++i) check_sample<R>(c, nullptr, &ys[i], ids[i], where); }
}
// one epoch of training batches; k samples per stored one
template<class R, class TD, class CD> static void epoch(TD& td, const CD& cd, const Cfg& c, int e, int bs, int ask, int kk = 0) { const int k = std::max(kk, 1);
	const int64_t nb = td.on_next_epoch(e, cd, ask); if (nb != c.n * k / bs) sim::fail("batch-count", "epoch of %d samples by %d has %ld batches", c.n * k, bs, (long)nb); std::set<int>* u; { sim::Oracle g; u = new std::set<int>; }
	const int64_t upto = sim::chance(.15) ? (int64_t)sim::rng(0, nb) : nb; // an epoch may be given up
	for (int64_t b = 0; b < upto; ++b) { td.on_next_batch(b, cd); { sim::Oracle g; if ((int)samples(td.batchX()).size() != bs) sim::fail("batch-size", "training batch of %zu samples instead of %d", samples(td.batchX()).size(), bs); } check_batch<R>(td, c, {}, 0, "training batch", u, kk); }
	sim::probe("epoch"); sim::Oracle g; delete u;
}
template<class R, class TD, class CD> static void walk(TD& td, const CD& cd, const Cfg& c, int set, int bs, int ask, unsigned excl, int kk = 0) { const int k = std::max(kk, 1);
	const int n = (set ? c.m : c.n) * k, b0 = set ? TEST0 : 0, by = std::min(bs, n); const int64_t nb = td.walk_over_set(set, cd, ask, excl);
	if (nb != (n + by - 1) / by) sim::fail("walk-count", "a walk over %d samples by %d has %ld batches", n, by, (long)nb);
	const int64_t upto = sim::chance(.15) ? (int64_t)sim::rng(0, nb) : nb;
	for (int64_t b = 0; b < upto; ++b) { td.next_subset(b, cd); sim::Oracle g; std::vector<int> ids; for (int i = (int)b * by; i < std::min(n, (int)(b + 1) * by); ++i) ids.push_back(b0 + i / k); check_batch<R>(td, c, ids, excl, "walk", nullptr, kk); }
	sim::probe("walk");
}
// "is it ready for batches of this size" either answers no and leaves its arguments alone, or yes and replaces zeros with the sizes in use
template<class TD> static void ask_sizes(const TD& td, int fs, int bs, int big, int n, int k) {
	vec_len_t f0 = k * (sim::chance(.5) ? 0 : (vec_len_t)sim::rng(1, big)), b0 = k * (sim::chance(.5) ? 0 : (vec_len_t)sim::rng(1, n)), f = f0, b = b0; bool mb = false;
	if (sim::chance(.5)) { if (!td.is_initialized4train(f, b, mb)) { if (f != f0 || b != b0) sim::fail("init", "sizes %d/%d were denied but changed to %d/%d", b0, f0, b, f); } else { if (f != (f0 ? f0 : fs * k) || b != (b0 ? b0 : bs * k) || f > fs * k || b > bs * k || b > f) sim::fail("init", "sizes %d/%d were granted as %d/%d (prepared for %d/%d)", b0, f0, b, f, bs * k, fs * k); if (mb != (b / k < n)) sim::fail("init", "minibatch mode reported wrongly"); } }
	else if (!td.is_initialized4inference(f)) { if (f != f0) sim::fail("init", "size %d was denied but changed to %d", f0, f); } else if (f != (f0 ? f0 : fs * k) || f > fs * k) sim::fail("init", "size %d was granted as %d (prepared for %d)", f0, f, fs * k);
	sim::probe("asked");
}
// ---- histories of one data set -----------------------------------------------------------------------------------
template<class I> static void t_walk() {
	typedef typename I::real_t R; Cfg c = draw_cfg(sim::chance(.3) ? 60 : 20); c.onehot = false; auto* e = new Env<I>(c.seed); auto& cd = *e->cd; auto* td = new inmem_train_data<R>; if (!fill_td(*td, c)) sim::fail("setup", "data set rejected");
	const bool rx = sim::chance(.35), ry = sim::chance(.35); if (rx) td->template transposeX<typename I::iMath_t>(); if (ry) td->template transposeY<typename I::iMath_t>(); check_td(*td, c);
	sim::context("%s %s", lay(rx, ry), c.str().c_str()); const int big = std::max(c.n, c.m); int fs = 0, bs = 0, e_idx = 0; bool initd = false;
	for (int st = 0, ns = (int)sim::rng(2, 9); st < ns; ++st) if (sim::keep_op()) switch (initd ? sim::rnd(9) : 0) {
	case 0: {
		vec_len_t f = sim::chance(.3) ? 0 : (vec_len_t)sim::rng(1, big + 3), b = sim::chance(.3) ? 0 : (vec_len_t)sim::rng(1, c.n + 2); fs = f <= 0 || f > big ? big : f; bs = b <= 0 || b > c.n ? c.n : b; bool mb = false; cd.deinit();
		if (sim::chance(.25)) { bs = 0; auto ec = td->init4inference(*e->m, f); if (ec != NE::Success || f != fs) sim::fail("init", "inference in batches of %d refused (%d) or changed to %d", fs, (int)ec, f); initd = true; cd.init(fs, 0); cd.set_mode_and_batch_size(false, fs); }
		else { auto ec = td->init4train(*e->m, f, b, &mb); if (bs > fs) { if (ec != NE::InvalidBatchSize2MaxFPropSizeRelation) sim::fail("init", "training batches of %d larger than the inference batches of %d were accepted", bs, fs); initd = false; break; } if (ec != NE::Success || f != fs || b != bs) sim::fail("init", "training in batches of %d/%d refused (%d) or changed to %d/%d", bs, fs, (int)ec, b, f); if (mb != (bs < c.n)) sim::fail("init", "minibatch mode reported wrongly"); initd = true; cd.init(fs, bs); cd.set_mode_and_batch_size(true, bs); } break; }
	case 8: ask_sizes(*td, fs, bs, big, c.n, 1); break;
	case 1: case 2: case 3: {
		if (!bs) break; int ask = sim::chance(.5) ? bs : (int)sim::rng(1, bs); vec_len_t f = fs, b = ask; bool mb = false; if (!td->is_initialized4train(f, b, mb)) { if (ask == bs) sim::fail("init", "a data set prepared for batches of %d denies it", bs); break; }
		cd.set_mode_and_batch_size(true, ask); epoch<R>(*td, cd, c, e_idx++, ask, sim::chance(.5) ? ask : ask == bs && sim::chance(.5) ? -1 : 0); break; }
	default: {
		int ask = sim::chance(.5) ? fs : (int)sim::rng(1, fs); vec_len_t f = ask; if (!td->is_initialized4inference(f)) { if (ask == fs) sim::fail("init", "a data set prepared for inference in batches of %d denies it", fs); break; }
		cd.set_mode_and_batch_size(false, ask); walk<R>(*td, cd, c, (int)sim::rnd(2), ask, sim::chance(.5) ? ask : ask == fs && sim::chance(.5) ? -1 : 0, (unsigned)(sim::chance(.3) ? sim::chance(.5) ? inmem_train_data<R>::flag_exclude_dataX : inmem_train_data<R>::flag_exclude_dataY : 0)); }
	}
	check_td(*td, c); sim::note(e_idx); delete td; delete e;
}
// ---- a transformer that makes k numbered variants of every stored sample ------------------------------------------
template<class R> struct Rep : _i_td_transformer<R, R> {
	typedef _i_td_transformer<R, R> B; using typename B::const_TD_stor_t; using typename B::x_mtx_t; using typename B::y_mtx_t; typedef math::smatrix_deform<R> md; int k; md bx, by; int64_t maxb = 0; bool bad = false; Rep(int _k) : k(_k) {}
	vec_len_t samplesInBaseSample() const noexcept { return k; } vec_len_t xWidth(const_TD_stor_t& t) const noexcept { return t.train_x().sample_size() + 1; } vec_len_t yWidth(const_TD_stor_t& t) const noexcept { return t.train_y().sample_size(); }
	numel_cnt_t base_dataset_samples_count(const_TD_stor_t& t, data_set_id_t d) const noexcept { return t.X(d).batch_size(); }
	void deinit() noexcept { bx.clear(); by.clear(); maxb = 0; }
	template<class M> bool init(M&, const_TD_stor_t& t, vec_len_t bb) noexcept { bx.will_emulate_biases(); by.dont_emulate_biases(); maxb = bb; return bx.resize((vec_len_t)(bb * k), xWidth(t)) && by.resize((vec_len_t)(bb * k), yWidth(t)); }
	template<class M> static void preinit_iMath(M&) noexcept {}
	void shape(int bb) { if (bb > maxb || bb < 1) sim::fail("batch-size", "transformer prepared for %ld stored samples is asked for %d", (long)maxb, bb); bx.deform_batch_size_with_biases(bb * k); by.deform_batch_size(bb * k); }
	void put(const_TD_stor_t& t, int set, int row, int src) { sim::Oracle g; auto& X = t.X(set); auto& Y = t.Y(set); if (src < 0 || src >= X.rows()) sim::fail("batch-data", "transformer is asked for stored sample %d of %d", src, (int)X.rows()); for (int r = 0; r < k; ++r) { for (int j = 0; j < X.cols_no_bias(); ++j) bx.data()[(size_t)j * bx.rows() + row * k + r] = X.data()[(size_t)j * X.rows() + src]; bx.data()[(size_t)X.cols_no_bias() * bx.rows() + row * k + r] = (R)r; for (int j = 0; j < Y.cols(); ++j) by.data()[(size_t)j * by.rows() + row * k + r] = Y.data()[(size_t)j * Y.rows() + src]; } }
	template<class CD> void next_epoch(const_TD_stor_t&, const numel_cnt_t, const CD&, const vec_len_t bb, x_mtx_t** x, y_mtx_t** y) noexcept { shape(bb); *x = &bx; *y = &by; }
	template<class CD> void next_batch(const_TD_stor_t& t, const numel_cnt_t, const CD&, const vec_len_t* ids, const vec_len_t bb) noexcept { for (int i = 0; i < bb; ++i) put(t, 0, i, ids[i]); }
	template<class CD> void walk(const_TD_stor_t&, const data_set_id_t, const CD&, const vec_len_t bb, const unsigned ex, x_mtx_t** x, y_mtx_t** y) noexcept { shape(bb); *x = (ex & 1) ? nullptr : &bx; *y = (ex & 2) ? nullptr : &by; }
	template<class CD> void walk_next(const_TD_stor_t& t, const data_set_id_t d, const numel_cnt_t, const CD&, const vec_len_t bb, const vec_len_t ofs, const unsigned) noexcept { shape(bb); for (int i = 0; i < bb; ++i) put(t, d, i, ofs + i); }
};
template<class I> static void t_transf() {
	typedef typename I::real_t R; typedef Rep<R> T; typedef transf_train_data<T> TD; static_assert((unsigned)TD::flag_exclude_dataX == 1 && (unsigned)TD::flag_exclude_dataY == 2, "");
	Cfg c = draw_cfg(14); c.onehot = false; const int k = (int)sim::rng(1, 3); auto* e = new Env<I>(c.seed); auto& cd = *e->cd; auto* stor = new inmem_train_data_stor<R, R>; auto* tf = new T(k); { typedef inmem_train_data_stor<R, R> ST; (void)sizeof(ST); if (!fill_td(*stor, c)) sim::fail("setup", "data set rejected"); }
	auto* td = new TD(*tf, *stor); sim::context("%d variants %s", k, c.str().c_str()); const int big = std::max(c.n, c.m); int fs = 0, bs = 0, ei = 0; bool initd = false; if (td->trainset_samples_count() != c.n * k || td->testset_samples_count() != c.m * k) sim::fail("batch-count", "sample counts of the transformed sets are wrong");
	for (int st = 0, ns = (int)sim::rng(2, 8); st < ns; ++st) if (sim::keep_op()) switch (initd ? sim::rnd(9) : 0) {
	case 0: {
		int f0 = sim::chance(.3) ? 0 : (int)sim::rng(1, big + 2), b0 = sim::chance(.3) ? 0 : (int)sim::rng(1, c.n + 2); fs = f0 <= 0 || f0 > big ? big : f0; bs = b0 <= 0 || b0 > c.n ? c.n : b0; vec_len_t f = f0 * k, b = b0 * k; bool mb = false; cd.deinit();
		if (sim::chance(.25)) { bs = 0; auto ec = td->init4inference(*e->m, f); if (ec != NE::Success || f != fs * k) sim::fail("init", "inference in batches of %d refused (%d) or changed to %d", fs * k, (int)ec, f); initd = true; cd.init(fs * k, 0); cd.set_mode_and_batch_size(false, fs * k); }
		else { auto ec = td->init4train(*e->m, f, b, &mb); if (bs > fs) { if (ec != NE::InvalidBatchSize2MaxFPropSizeRelation) sim::fail("init", "too large training batches were accepted"); initd = false; break; } if (ec != NE::Success || f != fs * k || b != bs * k) sim::fail("init", "training in batches of %d/%d refused (%d) or changed to %d/%d", bs * k, fs * k, (int)ec, b, f); if (mb != (bs < c.n)) sim::fail("init", "minibatch mode reported wrongly"); initd = true; cd.init(fs * k, bs * k); cd.set_mode_and_batch_size(true, bs * k); } break; }
	case 8: ask_sizes(*td, fs, bs, big, c.n, k); break;
	case 1: case 2: case 3: { if (!bs) break; int ask = k * (sim::chance(.5) ? bs : (int)sim::rng(1, bs)); vec_len_t f = fs * k, b = ask; bool mb = false; if (!td->is_initialized4train(f, b, mb)) { if (ask == bs * k) sim::fail("init", "a data set prepared for batches of %d denies it", ask); break; } cd.set_mode_and_batch_size(true, ask); epoch<R>(*td, cd, c, ei++, ask, sim::chance(.5) ? ask : 0, k); break; }
	default: { int ask = k * (sim::chance(.5) ? fs : (int)sim::rng(1, fs)); vec_len_t f = ask; if (!td->is_initialized4inference(f)) { if (ask == fs * k) sim::fail("init", "a data set prepared for inference in batches of %d denies it", ask); break; } cd.set_mode_and_batch_size(false, ask); walk<R>(*td, cd, c, (int)sim::rnd(2), ask, sim::chance(.5) ? ask : 0, (unsigned)(sim::chance(.3) ? sim::rng(1, 2) : 0), k); }
	}
	sim::note(ei); delete td; delete tf; delete stor; delete e;
}
// ---- evaluators: counts over walks equal a naive count --------------------------------------------------------------
// a data set that says it has a third, supplementary set: its targets are not cached
static bool g_three; template<class R> class Td3 final : public _inmem_train_data<Td3<R>, R, R> { public: template<class... A> Td3(A&&... a) noexcept : _inmem_train_data<Td3<R>, R, R>(std::forward<A>(a)...) {} data_set_id_t datasets_count() const noexcept { return g_three ? 3 : 2; } };
template<class I, bool onehot> static void t_eval() {
	typedef typename I::real_t R; typedef std::conditional_t<onehot, eval_classification_one_hot_cached<R>, eval_classification_binary_cached<R>> EV; Cfg c = draw_cfg(sim::chance(.3) ? 60 : 20); c.onehot = onehot; if (onehot && sim::chance(.5)) c.yw = (int)sim::rng(2, 6); auto* e = new Env<I>(c.seed); auto& cd = *e->cd; auto* td = new Td3<R>; if (!fill_td(*td, c)) sim::fail("setup", "data set rejected"); const int big = std::max(c.n, c.m);
	vec_len_t f = sim::chance(.3) ? 0 : (vec_len_t)sim::rng(1, big), b = 1; bool mb; if (td->init4train(*e->m, f, b, &mb) != NE::Success) sim::fail("setup", "data set refused"); cd.init(f, b); cd.set_mode_and_batch_size(false, f); cd.set_outBatchSizes(BatchSizes(f, b));
	const R thr = onehot || sim::chance(.5) ? (R).5 : (R).25; auto* ev = new EV; if constexpr (!onehot) ev->set_threshold(thr); sim::context("fs=%d %s", (int)f, c.str().c_str());
	for (int round = 0, nr = (int)sim::rng(1, 2); round < nr; ++round) {
		g_three = true; const bool inited = ev->init(*td, cd); g_three = false; if (!inited) sim::fail("setup", "evaluator refused");
		for (int w = 0, nw = (int)sim::rng(1, 4); w < nw; ++w) if (sim::keep_op()) {
			const int as3 = sim::chance(.25), set = (int)sim::rnd(2), n = set ? c.m : c.n, b0 = set ? TEST0 : 0, ask = sim::chance(.5) ? (int)f : (int)sim::rng(1, f); cd.set_mode_and_batch_size(false, ask); const auto nb = td->walk_over_set(set, cd, ask, 0); ev->prepare_to_dataset(as3 ? 2 : set, nb); int64_t got = 0, want = 0, tot = 0; int at = 0; const int by = std::min(ask, n);
			for (int64_t i = 0; i < nb; ++i) {
				td->next_subset(i, cd); const int rows = std::min(by, n - at); math::smatrix_deform<R> a(rows, c.yw, false); { sim::Oracle g; for (int r = 0; r < rows; ++r) { int best = 0; const uint64_t mode = sim::rnd(3); for (int j = 0; j < c.yw; ++j) { R v = (R)(((int)sim::rnd(17) * 8 + (onehot ? j : 0)) / 128.0); if (mode == 0) v = (R)yval(c, b0 + at + r, j); a.data()[(size_t)j * rows + r] = v; }
					if (onehot) { int tb = 0; for (int j = 1; j < c.yw; ++j) { if (a.data()[(size_t)j * rows + r] > a.data()[(size_t)best * rows + r]) best = j; if (yval(c, b0 + at + r, j) > yval(c, b0 + at + r, tb)) tb = j; } want += best == tb; } else for (int j = 0; j < c.yw; ++j) want += (a.data()[(size_t)j * rows + r] > thr) == ((R)yval(c, b0 + at + r, j) > thr); } }
				got += ev->correctlyClassified(as3 ? 2 : set, td->batchY(), a, *e->m); tot += ev->totalSamples(td->batchY()); at += rows; }
			if (got != want) sim::fail("evaluator-count", "%ld correct answers counted in a set of %d samples (batches of %d) instead of %ld", (long)got, n, ask, (long)want); if (tot != (onehot ? n : n * c.yw)) sim::fail("evaluator-count", "%ld answers counted altogether in a set of %d samples", (long)tot, n); sim::probe(as3 ? "evaluated-third-set" : "evaluated"); }
		ev->deinit();
	}
	check_td(*td, c); delete ev; delete td; delete e;
}
// ---- P13: data sets and evaluators that run out of memory ------------------------------------------------------------
template<class I> static void t_data_oom() {
	typedef typename I::real_t R; Cfg c = draw_cfg(20); c.onehot = sim::chance(.5); auto* e = new Env<I>(c.seed); auto& cd = *e->cd; auto* td = new inmem_train_data<R>; if (!fill_td(*td, c)) sim::fail("setup", "data set rejected"); const int big = std::max(c.n, c.m); sim::context("%s", c.str().c_str());
	const int k = (int)sim::rng(1, 3); auto* stor = new inmem_train_data_stor<R, R>; if (!fill_td(*stor, c)) sim::fail("setup", "data set rejected"); auto* tf = new Rep<R>(k); auto* tt = new transf_train_data<Rep<R>>(*tf, *stor); auto* ev1 = new eval_classification_one_hot_cached<R>; auto* ev2 = new eval_classification_binary_cached<R>;
	const uint64_t l0 = sim::live_blocks();
	for (int op = 0, no = (int)sim::rng(1, 4); op < no; ++op) if (sim::keep_op()) {
		vec_len_t f = sim::chance(.3) ? 0 : (vec_len_t)sim::rng(1, big), b = sim::chance(.3) ? 1 : (vec_len_t)sim::rng(1, f ? std::min<int>(f, c.n) : c.n); const int fs = f ? f : big, bs = b; bool mb; const int what = (int)sim::rnd(3); const bool inf = sim::chance(.4); const bool tr = what == 2; const int kk = tr ? k : 1; f *= kk; b *= kk;
		for (int attempt = 0; attempt < 2; ++attempt) {
			vec_len_t F = f, B = b; const auto f0 = sim::alloc_failures(); if (!attempt) sim::alloc_faults(true); NE ec; if (tr) ec = inf ? tt->init4inference(*e->m, F) : tt->init4train(*e->m, F, B, &mb); else ec = inf ? td->init4inference(*e->m, F) : td->init4train(*e->m, F, B, &mb); sim::alloc_faults(false); const bool failed = sim::alloc_failures() != f0;
			if ((ec != NE::Success) != failed) sim::fail(failed ? "failure-hidden" : "not-usable-after-failure", "preparing a data set for %d/%d returned %d", bs, fs, (int)ec);
			vec_len_t z = 0, y = 0; bool q; if (ec != NE::Success) { sim::probe("reported"); if (tr ? tt->is_initialized4inference(z) : td->is_initialized4inference(z)) sim::fail("failure-hidden", "a data set claims to be prepared after its preparation failed"); y = z = 0; if (tr ? tt->is_initialized4train(z, y, q) : td->is_initialized4train(z, y, q)) sim::fail("failure-hidden", "a data set claims to be prepared for training after its preparation failed"); continue; }
			cd.deinit(); cd.init(fs * kk, inf ? 0 : bs * kk); cd.set_mode_and_batch_size(false, fs * kk); cd.set_outBatchSizes(BatchSizes(fs * kk, inf ? 0 : bs * kk)); const int set = (int)sim::rnd(2);
			if (tr) { walk<R>(*tt, cd, c, set, fs * k, -1, 0, k); if (!inf) { cd.set_mode_and_batch_size(true, bs * k); epoch<R>(*tt, cd, c, 0, bs * k, 0, k); } } else { walk<R>(*td, cd, c, set, fs, -1, 0); if (!inf) { cd.set_mode_and_batch_size(true, bs); epoch<R>(*td, cd, c, 0, bs, 0); } }
			if (what == 1) for (int a2 = 0; a2 < 2; ++a2) { // evaluators
				const auto g0 = sim::alloc_failures(); cd.set_mode_and_batch_size(false, fs); if (!a2) sim::alloc_faults(true); const bool one = c.onehot; const bool ok = one ? ev1->init(*td, cd) : ev2->init(*td, cd); sim::alloc_faults(false); const bool bad = sim::alloc_failures() != g0; if (ok == bad) sim::fail(bad ? "failure-hidden" : "not-usable-after-failure", "initialising an evaluator returned %d", (int)ok); if (!ok) { sim::probe("evaluator_reported"); continue; }
				const auto nb = td->walk_over_set(0, cd, -1, 0); one ? ev1->prepare_to_dataset(0, nb) : ev2->prepare_to_dataset(0, nb); int64_t got = 0; for (int64_t i = 0; i < nb; ++i) { td->next_subset(i, cd); math::smatrix_deform<R> a; if (!td->batchY().clone_to(a)) sim::fail("setup", "no memory"); got += one ? ev1->correctlyClassified(0, td->batchY(), a, *e->m) : ev2->correctlyClassified(0, td->batchY(), a, *e->m); } if (got != (one ? c.n : c.n * c.yw)) sim::fail("failure-leaves-traces", "evaluator counts %ld of %d right answers", (long)got, c.n); }
			break;
		}
		td->deinit4all(); tt->deinit4all(); ev1->deinit(); ev2->deinit(); e->m->deinit(); if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated", (long long)(sim::live_blocks() - l0));
	}
	check_td(*td, c); delete ev2; delete ev1; delete tt; delete tf; delete stor; delete td; delete e;
}
static void tune_oom(sim::Knobs& k) { static const double p[] = { .1, .25, .5 }; k.p_allocfail = p[sim::rnd(3)]; k.max_allocfail = 1 + (unsigned)sim::rnd(4); k.fail_throwing = true; k.throw_min = 48; }
static void do_f() { t_data_oom<Iw<float>>(); } SIM_SCENARIO(P13, data_f, do_f, tune_oom, 1)
static void w_f() { t_walk<Iw<float>>(); } SIM_SCENARIO(P12, walk_f, w_f, nullptr, 3)
static void w_d() { t_walk<Is<double>>(); } SIM_SCENARIO(P12, walk_d, w_d, nullptr, 2)
static void tr_f() { t_transf<Iw<float>>(); } SIM_SCENARIO(P12, transformed, tr_f, nullptr, 2)
static void eb_f() { t_eval<Iw<float>, false>(); } SIM_SCENARIO(P12, eval_binary, eb_f, nullptr, 1)
static void eo_f() { t_eval<Iw<float>, true>(); } SIM_SCENARIO(P12, eval_onehot, eo_f, nullptr, 1)
