// Weights and other variables in MATLAB files (P17): what was saved without an error report is what is loaded, and faults are reported
#undef NNTL_MATLAB_AVAILABLE
#define NNTL_MATLAB_AVAILABLE 1
#include "nets.h"
#include <nntl/_supp/io/matfile.h>
namespace sim { std::ostream nullout(nullptr); }
using namespace nntl_supp; typedef _matfile_errs::ErrorCode ME;

// ---- model of a variable ---------------------------------------------------------------------------------------------
struct V { int cls = mxSTRUCT_CLASS; int r = 1, c = 1; bool scalar = false, bias = false; std::string bytes; std::vector<std::pair<std::string, V>> ch;
	V* find(const std::string& n) { for (auto& p : ch) if (p.first == n) return &p.second; return nullptr; }
	void set(const std::string& n, const V& v) { if (V* o = find(n)) *o = v; else ch.push_back({ n, v }); } };
template<class T> static constexpr int cls_of() { return utils::matlab::type2id<T>::id; }
// calls f with a value of the element type of class c
template<class F> static void by_class(int c, F&& f) { switch (c) { case mxLOGICAL_CLASS: return f(bool()); case mxINT8_CLASS: return f(int8_t()); case mxUINT8_CLASS: return f(uint8_t()); case mxINT32_CLASS: return f(int32_t()); case mxUINT32_CLASS: return f(uint32_t()); case mxINT64_CLASS: return f(int64_t()); case mxUINT64_CLASS: return f(uint64_t()); case mxSINGLE_CLASS: return f(float()); default: return f(double()); } }
static const int classes[] = { mxLOGICAL_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxSINGLE_CLASS, mxSINGLE_CLASS, mxDOUBLE_CLASS, mxDOUBLE_CLASS };
template<class T> static T draw_value() {
	if constexpr (std::is_same<T, bool>::value) return sim::chance(.5); else if constexpr (std::is_floating_point<T>::value) { switch (sim::rnd(5)) { case 0: return (T)((int)sim::rnd(1000) - 500); case 1: return std::numeric_limits<T>::denorm_min() * (T)sim::rng(1, 100); case 2: return (T)1 / (T)sim::rng(3, 1000); case 3: return -(T)0; default: return (T)sim::rnd(1u << 20) * (T)1e-3; } }
	else { switch (sim::rnd(3)) { case 0: return (T)sim::rnd(100); case 1: return (T)-(T)sim::rnd(100); default: return (T)(sim::rnd() >> sim::rnd(60)); } }
}
static const char* leaf_names[] = { "a", "b2", "W_x", "train_x", "test_x", "train_y", "train_x2" };
static V draw_leaf(const std::string& name) {
	V v; v.cls = classes[sim::rnd(std::size(classes))]; v.bias = name == "train_x" || name == "test_x"; v.scalar = !v.bias && sim::chance(.4); if (!v.scalar) { v.r = (int)sim::rng(1, 6); v.c = (int)sim::rng(v.bias ? 2 : 1, 4); if (v.bias && v.cls != mxSINGLE_CLASS) v.cls = mxDOUBLE_CLASS; }
	by_class(v.cls, [&](auto t) { typedef decltype(t) T; for (int j = 0; j < v.c; ++j) for (int i = 0; i < v.r; ++i) { T x = v.bias && j == v.c - 1 ? (T)1 : draw_value<T>(); v.bytes.append((const char*)&x, sizeof x); } }); return v;
}
static V draw_var(const std::string& name, int depth) {
	if (depth > 2 || name == "train_x" || name == "test_x" || !sim::chance(.3)) return draw_leaf(name); V v; const int n = (int)sim::rng(0, 3); for (int i = 0; i < n; ++i) { const char* nm = leaf_names[sim::rnd(std::size(leaf_names))]; v.set(nm, draw_var(nm, depth + 1)); } return v;
}
// faults happen in the calls of the library only
static bool g_hurt = false;
struct Quiet { bool h; Quiet() : h(g_hurt) { set(false); } ~Quiet() { set(h); } static void set(bool on) { g_hurt = on; sim::alloc_faults(on); sim::io_faults(on); } };
struct Node { V* v; template<class Ar> void serialize(Ar& ar, const unsigned int); };
template<class Ar> static void save(Ar& ar, const char* name, V& v) {
	if (v.cls == mxSTRUCT_CLASS) { Node n{ &v }; ar & serialization::make_named_struct(name, n); return; }
	by_class(v.cls, [&](auto t) { typedef decltype(t) T; T x; if (v.scalar) { { sim::Oracle g; memcpy(&x, v.bytes.data(), sizeof x); } ar & serialization::make_nvp(name, x); return; }
		Quiet* q = new Quiet; const bool h = q->h; math::smatrix_deform<T> m; if (v.bias) m.will_emulate_biases(); if (!m.resize(v.r, v.c - v.bias)) sim::fail("setup", "no memory"); { sim::Oracle g; memcpy(m.data(), v.bytes.data(), v.bytes.size()); } delete q; (void)h;
		if (v.r & 1) ar & serialization::make_nvp(name, m); else ar & serialization::make_nvp(name, static_cast<math::smatrix<T>&>(m)); });
}
template<class M, class S> static void same_mtx(const M& m, const V& v, S) {
	typedef std::decay_t<decltype(m.data()[0])> D; if ((int)m.rows() != v.r || (int)m.cols_no_bias() != v.c - v.bias || m.emulatesBiases() != v.bias || m.bBatchInRow()) sim::fail("content", "matrix of %dx%d loaded as %dx%d%s", v.r, v.c - v.bias, (int)m.rows(), (int)m.cols_no_bias(), m.emulatesBiases() ? " with biases" : "");
	const int k = v.r * (v.c - v.bias); for (int i = 0; i < k; ++i) { S s; memcpy(&s, v.bytes.data() + i * sizeof(S), sizeof s); const D d = m.data()[i]; const double e = fabs((double)d - (double)s), lim = fabs((double)s) * std::numeric_limits<D>::epsilon(); if (std::is_same<S, D>::value ? memcmp(&d, &s, sizeof d) != 0 : !(e <= lim || fabs((double)s) < 2e-38)) sim::fail("content", "element %d of %d of class %d loaded into class %d is %.17g instead of %.17g", i, k, v.cls, cls_of<D>(), (double)m.data()[i], (double)s); }
	if (v.bias) for (int i = 0; i < v.r; ++i) if (m.data()[k + i] != (D)1) sim::fail("content", "bias of row %d is %g", i, (double)m.data()[k + i]);
}
// loads the variable as what it is
template<class Ar> static void load(Ar& ar, const char* name, V& v) {
	if (v.cls == mxSTRUCT_CLASS) { Node n{ &v }; ar & serialization::make_named_struct(name, n); return; }
	by_class(v.cls, [&](auto t) { typedef decltype(t) T; if (v.scalar) { T x = T(), y; ar & serialization::make_nvp(name, x); sim::Oracle g; memcpy(&y, v.bytes.data(), sizeof y); if (ar.success() && memcmp(&x, &y, sizeof x)) sim::fail("content", "scalar of class %d is %.17g instead of %.17g", v.cls, (double)x, (double)y); return; }
		if constexpr (sizeof(T) == 4 || std::is_same<T, double>::value) if (v.c & 1) { math::smatrix_deform<T> m; ar & serialization::make_nvp(name, m); if (ar.success()) { sim::Oracle g; same_mtx(m, v, T()); } return; }
		math::smatrix<T> m; if (v.r & 1) { Quiet q; if constexpr (std::is_same<T, float>::value || std::is_same<T, double>::value) if (v.c == 2) m.will_emulate_biases(); m.resize(2, 2); } ar & serialization::make_nvp(name, m); if (ar.success()) { sim::Oracle g; same_mtx(m, v, T()); } });
}
template<class Ar> void Node::serialize(Ar& ar, const unsigned int) { for (auto& p : v->ch) { if constexpr (Ar::is_saving::value) save(ar, p.first.c_str(), p.second); else load(ar, p.first.c_str(), p.second); } }

struct FpMode { unsigned m; FpMode() : m(sim::mxcsr()) {} void check(const char* what) { if ((sim::mxcsr() & ~0x3Fu) != (m & ~0x3Fu)) sim::fail("fp-mode", "%s leaves the floating point mode %#x instead of %#x", what, sim::mxcsr(), m); } };
static void same_var(const std::string& path, const mxArray* a, const V& v) { // what a MATLAB user sees of the file
	if (!a) sim::fail("content", "variable %s is not in the file", path.c_str()); if (a->cls != v.cls || (v.cls != mxSTRUCT_CLASS ? (int)a->m != v.r || (int)a->n != v.c : a->m != 1 || a->n != 1)) sim::fail("content", "variable %s of class %d is %zux%zu of class %d instead of %dx%d", path.c_str(), v.cls, a->m, a->n, a->cls, v.r, v.c);
	if (v.cls != mxSTRUCT_CLASS) { if (memcmp(a->data, v.bytes.data(), v.bytes.size())) sim::fail("content", "variable %s has other values", path.c_str()); return; }
	if (a->nf != (int)v.ch.size()) sim::fail("content", "structure %s has %d fields instead of %zu", path.c_str(), a->nf, v.ch.size()); for (auto& p : v.ch) same_var(path + "." + p.first, mxGetField(a, 0, p.first.c_str()), p.second);
}
static void same_file(const char* fn, V& file) { sim::Oracle g; const void* d; size_t n; if (!sim::file_get(fn, &d, &n)) sim::fail("content", "there is no file"); for (auto& p : file.ch) { mxArray* a = simmat::find((const char*)d, n, p.first.c_str()); same_var(p.first, a, p.second); mxDestroyArray(a); } }

// reading of a good file, with faults and with requests that do not fit
static void read_back(V& file, bool hurt) {
	auto* in = new imatfile<>; FpMode fp; fp.check("creation of an archive"); const int rounds = (int)sim::rng(1, 3);
	for (int k = 0; k < rounds; ++k) if (sim::keep_op()) {
		const bool last = k == rounds - 1, h = hurt && !last; const bool missing = sim::chance(.1); const auto f0 = sim::alloc_failures() + sim::io_faults(); auto faulty = [&] { return sim::alloc_failures() + sim::io_faults() != f0; };
		if (h) Quiet::set(true); ME ec = in->open(missing ? "nosuchfile" : "f"); Quiet::set(false); fp.check("open"); if (ec != in->get_last_error()) sim::fail("error", "open returned %d, last error %d", ec, in->get_last_error());
		if (ec != ME::Success) { if (!missing && !faulty()) sim::fail("rejected", "a good file could not be opened: %d", ec); if (missing && ec != ME::FailedToOpenFile) sim::fail("error", "missing file gives error %d", ec); sim::probe("open_refused"); continue; } if (missing) sim::fail("accepted", "a missing file was opened");
		for (int j = 0, n = (int)sim::rng(1, 6); j < n && in->success(); ++j) {
			const int how = (int)sim::rnd(10); const auto f1 = sim::alloc_failures() + sim::io_faults(); ME want = ME::Success; const char* name = "nosuch"; std::string nm; V* v = nullptr; { sim::Oracle g; if (!file.ch.empty()) { auto& p = file.ch[sim::rnd(file.ch.size())]; nm = p.first; v = &p.second; } } if (v && how > 0) name = nm.c_str(); else { want = ME::FailedToTransferVariable; v = nullptr; }
			sim::context("round %d: variable %s, way %d", k, name, how); if (h) Quiet::set(true);
			if (!v) { if (sim::chance(.3)) { V z; Node nd{ &z }; *in & serialization::make_named_struct(name, nd); } else if (sim::chance(.5)) { float x; *in & serialization::make_nvp(name, x); } else { math::smatrix<float> m; *in & serialization::make_nvp(name, m); } }
			else if (how == 1) { if (v->cls == mxSTRUCT_CLASS) { math::smatrix<float> m; *in & serialization::make_nvp(name, m); } else { V z; Node nd{ &z }; *in & serialization::make_named_struct(name, nd); } want = ME::WrongVariableTypeHasBeenRead; }
			else if (how == 2) { float x = 5; want = v->cls == mxSINGLE_CLASS && v->r == 1 && v->c == 1 ? ME::Success : ME::WrongVariableTypeHasBeenRead; *in & serialization::make_nvp(name, x); if (want == ME::Success && in->success() && memcmp(&x, v->bytes.data(), 4)) sim::fail("content", "scalar is %g", x); if (!in->success() && x != 5) sim::fail("content", "a refused load changed the variable"); }
			else if (how <= 4 && v->cls != mxSTRUCT_CLASS && !(v->bias && v->c < 2)) by_class(v->cls, [&](auto t) { // converted to a floating point type
				typedef decltype(t) T; if (how == 3) { math::smatrix<double> m; *in & serialization::make_nvp(name, m); if (in->success()) { sim::Oracle g; same_mtx(m, *v, T()); } } else { math::smatrix_deform<float> m; *in & serialization::make_nvp(name, m); if (in->success()) { sim::Oracle g; same_mtx(m, *v, T()); } } sim::probe("converted"); });
			else load(*in, name, *v);
			Quiet::set(false); fp.check("a load"); const bool f = sim::alloc_failures() + sim::io_faults() != f1; ec = in->get_last_error();
			if (ec != want) { if (!f) sim::fail(want == ME::Success ? "rejected" : ec == ME::Success ? "accepted" : "error", "load of %s gives %d (%s) instead of %d", name, ec, in->get_last_error_str(), want); if (ec == ME::Success) sim::fail("accepted", "load of %s succeeds", name); sim::probe("load_fault"); } else sim::probe(want == ME::Success ? "loaded" : "load_refused"); sim::note(ec);
		}
		const bool failed = !in->success(); if (failed) { float x = 3; *in & serialization::make_nvp("a", x); if (in->success() || x != 3) sim::fail("error", "the error was forgotten before the archive was closed"); }
		ec = in->close(); fp.check("close"); if (!failed && ec != ME::Success) sim::fail("error", "close gives %d", ec); if (sim::open_files()) sim::fail("leak", "the file is still open after closing");
	}
	delete in;
}
// ---- variables and structures in any order ----------------------------------------------------------------------------
struct Frame { V* s; V* below; std::string name; V own; };
template<class Ar> static void save_ops(Ar& ar, V& file, int n, bool upd_ok, bool& bad, bool h) {
	std::vector<Frame*> st; std::vector<V*> tops; auto top = [&] { return st.empty() ? &file : st.back()->s; };
	auto faults = [] { return sim::alloc_failures() + sim::io_faults(); };
	auto checked = [&](uint64_t f, const char* what, ME ec) { if (ec != ME::Success && faults() == f) sim::fail("rejected", "%s fails with %d (%s)", what, ec, ar.get_last_error_str()); if (ec != ME::Success) { bad = true; sim::probe("save_fault"); } };
	for (int i = 0; i < n && !bad; ++i) {
		if constexpr (std::is_same<Ar, omatfileEx<>>::value) {
			if (st.size() < 7 && sim::chance(.3)) { // begin a structure
				const bool dn = sim::chance(.4), u = upd_ok && sim::chance(.5); std::string* nm; Frame* f; { sim::Oracle g; nm = new std::string; do { *nm = "s" + std::to_string(sim::rnd(5)); bool used = false; for (auto* q : st) used |= q->name == *nm; if (!used) break; if (st.size() > 4) *nm += "z" + std::to_string(i); else continue; break; } while (true); f = new Frame; f->name = *nm; f->below = dn && !st.empty() ? st.back()->below : top(); if (u) if (V* o = f->below->find(*nm)) if (o->cls == mxSTRUCT_CLASS) { f->own = *o; sim::probe("updated"); } f->s = &f->own; }
				const auto f0 = faults(); if (h && (!u || f->below != &file)) Quiet::set(true); ME ec = ar.save_struct_begin(std::string(nm->c_str()), u, dn); Quiet::set(false); checked(f0, "save_struct_begin", ec); if (ec != ME::Success || !ar.success()) { if (ec == ME::Success) sim::fail("error", "save_struct_begin returns success but sets error %d", ar.get_last_error()); }
				sim::Oracle g; delete nm; if (bad) delete f; else st.push_back(f); sim::probe(dn ? "parallel_struct" : "struct"); continue;
			}
			if (!st.empty() && sim::chance(.3)) goto end;
		}
		{ std::string* nm; V* v; { sim::Oracle g; nm = new std::string(leaf_names[sim::rnd(std::size(leaf_names))]); v = new V(draw_var(*nm, 0)); } const auto f0 = faults(); if (h) Quiet::set(true); save(ar, nm->c_str(), *v); Quiet::set(false); sim::context("save %s", nm->c_str()); checked(f0, "save", ar.get_last_error()); sim::Oracle g; if (!bad) top()->set(*nm, *v); delete nm; delete v; continue; }
	end: if constexpr (std::is_same<Ar, omatfileEx<>>::value) { const auto f0 = faults(); if (h) Quiet::set(true); ME ec = ar.save_struct_end(); Quiet::set(false); checked(f0, "save_struct_end", ec); if (ec == ME::Success && !ar.success()) sim::fail("error", "save_struct_end returns success but sets error %d", ar.get_last_error()); sim::Oracle g; Frame* f = st.back(); st.pop_back(); if (!bad) f->below->set(f->name, f->own); delete f; }
	}
	if constexpr (std::is_same<Ar, omatfileEx<>>::value) while (!st.empty()) { if (!bad) { const auto f0 = faults(); if (h) Quiet::set(true); ME ec = ar.save_struct_end(); Quiet::set(false); checked(f0, "save_struct_end", ec); } sim::Oracle g; Frame* f = st.back(); st.pop_back(); if (!bad) f->below->set(f->name, f->own); delete f; }
	sim::Oracle g; std::vector<Frame*>().swap(st);
}
template<class Ar> static void t_vars() {
	simmat::changes_fp = sim::chance(.5); global_denormalized_floats_mode(); FpMode fp; const auto l0 = sim::live_blocks(); Ar* ar = new Ar; fp.check("creation of an archive"); V* file; { sim::Oracle g; file = new V; } bool exists = false; const bool hurt = sim::chance(.6);
	for (int round = 0, nr = (int)sim::rng(1, 4); round < nr; ++round) if (sim::keep_op()) {
		const int mode = exists ? (int)sim::rnd(3) : (int)sim::rnd(2); const bool h = hurt && sim::chance(.6); const auto f0 = sim::alloc_failures() + sim::io_faults(); V* next; { sim::Oracle g; next = mode == 2 ? new V(*file) : new V; } bool bad = false; sim::context("round %d mode %d", round, mode);
		if (h) Quiet::set(true); ME ec = ar->open("f", mode == 0 ? Ar::WriteDelete : mode == 1 ? Ar::UpdateDelete : Ar::UpdateKeepOld); Quiet::set(false); fp.check("open"); const bool fo = sim::alloc_failures() + sim::io_faults() != f0; if (ec != ar->get_last_error()) sim::fail("error", "open returned %d, last error %d", ec, ar->get_last_error());
		if (ec != ME::Success) { if (!fo) sim::fail("rejected", "the file could not be opened for writing: %d", ec); sim::probe("open_failed"); bad = true; } else {
			save_ops(*ar, *next, (int)sim::rng(1, 8), mode != 0, bad, h); fp.check("a save"); const auto f1 = sim::alloc_failures() + sim::io_faults(); if (h) Quiet::set(true); ec = ar->close(); Quiet::set(false); fp.check("close"); if (ec != ME::Success) { if (!bad && sim::alloc_failures() + sim::io_faults() == f1) sim::fail("rejected", "close fails with %d", ec); sim::probe("close_failed"); bad = true; } }
		if (sim::open_files()) sim::fail("leak", "the file is still open after closing");
		sim::probe(bad ? "save_failed" : "saved"); sim::Oracle* g = new sim::Oracle; delete file; file = next; if (bad) { *file = V(); } delete g; exists = !bad; if (bad) { remove("f"); if (sim::chance(.3)) { delete ar; ar = new Ar; } continue; }
		same_file("f", *file); sim::state(file->ch.size()); if (sim::chance(.7)) read_back(*file, hurt);
		if (sim::chance(.15)) { delete ar; ar = new Ar; }
	}
	delete ar; { sim::Oracle g; delete file; } if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated", (long long)(sim::live_blocks() - l0));
}
static void tune_mat(sim::Knobs& k) { static const double p[] = { .01, .05, .2 }; k.p_allocfail = p[sim::rnd(3)]; k.max_allocfail = 1 + (unsigned)sim::rnd(3); k.p_io = p[sim::rnd(3)]; k.max_iofault = 1 + (unsigned)sim::rnd(3); }
static void v_omat() { t_vars<omatfile<>>(); } SIM_SCENARIO(P17, variables, v_omat, tune_mat, 2)
static void v_omatex() { t_vars<omatfileEx<>>(); } SIM_SCENARIO(P17, structures, v_omatex, tune_mat, 3)
// ---- weights of whole networks ---------------------------------------------------------------------------------------
template<class R> static void same_wts(const std::vector<R>* a, const std::vector<R>& b, const char* what) { sim::Oracle g; const int64_t d = first_diff(*a, b); if (d == -2) sim::fail("weights", "%s: %zu weights became %zu", what, a->size(), b.size()); if (d >= 0) sim::fail("weights", "%s: weight %lld is %.9g instead of %.9g", what, (long long)d, (double)b[d], (double)(*a)[d]); }
template<class R> static std::vector<R>* keep(const std::vector<R>& v) { sim::Oracle g; return new std::vector<R>(v); }
template<class A, class I> static void t_net() {
	typedef typename I::real_t R; typedef Sys<A, I> S; Cfg c = draw_cfg(12); c.onehot = A::onehot; c.epochs = 1; sim::context("%s %s", A::name, c.str().c_str()); simmat::changes_fp = sim::chance(.5); const auto l0 = sim::live_blocks(); FpMode* fp = nullptr; auto faults = [] { return sim::alloc_failures() + sim::io_faults(); };
	auto* s = new S(c); fp = new FpMode; TrainSpec sp = spec_of(c); sp.diverge = false; auto ready = [&](S& t) { if (sim::chance(.5)) { if ((int)t.train(sp)) sim::fail("setup", "training failed"); } else if ((int)t.nn->fprop(t.td->train_x())) sim::fail("setup", "initialisation failed"); }; ready(*s); if (sim::chance(.2)) s->nn->deinit();
	std::vector<R>* w = keep(s->weights()); const bool hurt = sim::chance(.6); bool there = false;
	auto write = [&](S& t, bool h) { const auto f0 = faults(); if (h) Quiet::set(true); const bool ok = t.nn->write_weights("f"); Quiet::set(false); fp->check("writing of weights"); if (!ok && faults() == f0) sim::fail("rejected", "weights could not be written"); if (sim::open_files()) sim::fail("leak", "the file is still open"); sim::probe(ok ? "written" : "write_failed"); return ok; };
	auto read = [&](S& t, bool h, const char* fn = "f") { const auto f0 = faults(); if (h) Quiet::set(true); const bool ok = t.nn->read_weights(fn); Quiet::set(false); fp->check("reading of weights"); if (sim::open_files()) sim::fail("leak", "the file is still open"); if (!ok && faults() == f0) return 0; return ok ? 1 : -1; };
	for (int k = 0; k < 2 && !there; ++k) there = write(*s, hurt && !k); same_wts(w, s->weights(), "written network");
	if (sim::keep_op()) { // another network of the same architecture
		Cfg c2 = c; c2.seed += 17; S* t = new S(c2); const bool fresh = sim::chance(.4); if (!fresh) ready(*t); if (sim::chance(.2)) t->nn->deinit(); int r = 0; for (int k = 0; k < 2 && r != 1; ++k) { r = read(*t, hurt && !k); if (!r) sim::fail("rejected", "weights of the same architecture could not be read"); sim::probe(r == 1 ? "read" : "read_failed"); }
		same_wts(w, t->weights(), "network that read the file"); same_wts(w, s->weights(), "written network");
		// it predicts what the written network predicts
		std::vector<std::vector<double>> o[2]; S* n[2] = { s, t }; for (int k = 0; k < 2; ++k) { if ((int)n[k]->nn->fprop(s->td->test_x())) sim::fail("inference-failed", "network refuses a batch"); sim::Oracle g; o[k] = samples(*n[k]->a->lp.output_layer().get_activations_storage()); } { sim::Oracle g; for (size_t i = 0; i < o[0].size(); ++i) if (first_diff(o[0][i], o[1][i]) != -1) sim::fail("predictions", "prediction %zu of the network that read the weights differs", i); o[0].clear(); o[1].clear(); o[0].shrink_to_fit(); o[1].shrink_to_fit(); }
		if (sim::chance(.3)) { if ((int)t->train(sp)) sim::fail("setup", "training failed"); there = write(*t, false); std::vector<R>* w2 = keep(t->weights()); if (read(*s, false) != 1) sim::fail("rejected", "weights could not be read back"); same_wts(w2, s->weights(), "network that read the trained weights"); { sim::Oracle g; std::swap(w, w2); delete w2; } }
		delete t;
	}
	if (sim::keep_op()) { // another architecture, a missing file, a file cut off
		const int how = (int)sim::rnd(4); S* t; Cfg c2 = c; if (how == 0) ++(sim::chance(.5) ? c2.h1 : c2.yw); else if (how == 1) ++c2.xw; t = new S(c2); if (sim::chance(.5)) ready(*t);
		if (how == 2) { if (read(*t, false, "nosuchfile")) sim::fail("accepted", "weights of a missing file were read"); } else if (how == 3) { sim::Oracle* g = new sim::Oracle; const void* d; size_t n; if (!sim::file_get("f", &d, &n)) sim::fail("content", "there is no file"); std::string b((const char*)d, n); b.resize(sim::rnd(n)); sim::file_put("f", b.data(), b.size()); b.clear(); b.shrink_to_fit(); delete g; if (read(*t, false)) sim::fail("accepted", "weights of a file cut off were read"); }
		else if (read(*t, false)) { if (!(how == 0 && std::is_same<A, APt>::value) || true) sim::fail("accepted", "weights of another architecture (h1=%d, xw=%d, yw=%d instead of %d, %d, %d) were read", c.h1, c.xw, c.yw, c2.h1, c2.xw, c2.yw); }
		sim::probe(how == 2 ? "missing_file" : how == 3 ? "file_cut_off" : "other_architecture");
		if (how >= 2) { write(*s, false); if (read(*t, false) != 1) sim::fail("rejected", "weights could not be read after a failed attempt"); same_wts(w, t->weights(), "network that read the file after a failed attempt"); } delete t;
	}
	sim::note_bytes(w->data(), w->size() * sizeof(R)); { sim::Oracle g; delete w; } delete fp; delete s; if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated", (long long)(sim::live_blocks() - l0));
}
#define NET(A) static void v_##A() { t_net<A, Iw<float>>(); } SIM_SCENARIO(P17, A##_weights, v_##A, tune_mat, 1)
NET(AFc) NET(ADo) NET(APh) NET(APt) NET(APo) NET(APa)
// ---- a whole network with the state of its training ------------------------------------------------------------------
static void within(const std::string& path, const mxArray* part, const mxArray* all) { // every variable of part is in all
	if (!all) sim::fail("content", "%s is not in the file", path.c_str()); if (part->cls != all->cls || (part->cls != mxSTRUCT_CLASS && (part->m != all->m || part->n != all->n))) sim::fail("content", "%s is %zux%zu of class %d instead of %zux%zu of class %d", path.c_str(), all->m, all->n, all->cls, part->m, part->n, part->cls);
	if (part->cls != mxSTRUCT_CLASS) { if (memcmp(part->data, all->data, part->m * part->n * simmat::elsz(part->cls))) sim::fail("content", "%s has other values", path.c_str()); return; }
	for (int i = 0; i < part->nf; ++i) if (part->vals[i]) within(path + "." + part->names[i], part->vals[i], mxGetField((mxArray*)all, 0, part->names[i]));
}
template<class A, class I> static void t_state() {
	typedef typename I::real_t R; typedef Sys<A, I> S; Cfg c = draw_cfg(12); c.onehot = A::onehot; c.epochs = (int)sim::rng(1, 2); sim::context("%s %s with the state of the training", A::name, c.str().c_str()); simmat::changes_fp = sim::chance(.5); const auto l0 = sim::live_blocks(); auto faults = [] { return sim::alloc_failures() + sim::io_faults(); };
	auto* s = new S(c); auto* fp = new FpMode; TrainSpec sp = spec_of(c); sp.diverge = false; sp.deinit = false; if ((int)s->train(sp)) sim::fail("setup", "training failed"); if (sim::chance(.7) && (int)s->nn->fprop(sim::chance(.5) ? s->td->train_x() : s->td->test_x())) sim::fail("setup", "network refuses a batch"); std::vector<R>* w = keep(s->weights()); if (!s->nn->write_weights("w")) sim::fail("rejected", "weights could not be written"); const bool hurt = sim::chance(.4); bool there = false;
	for (int k = 0; k < 2 && !there; ++k) { const bool h = hurt && !k; const auto f0 = faults(); auto* ar = new omatfileEx<>; if (h) Quiet::set(true); ME ec = ar->open("f"); if (ec == ME::Success) { *ar & *s->nn; ec = ar->get_last_error(); const ME e2 = ar->close(); if (ec == ME::Success) ec = e2; } Quiet::set(false); fp->check("writing of a network"); delete ar; there = ec == ME::Success; if (!there && faults() == f0) sim::fail("rejected", "the network could not be written: %d", ec); if (sim::open_files()) sim::fail("leak", "the file is still open"); sim::probe(there ? "state_written" : "state_write_failed"); }
	same_wts(w, s->weights(), "written network");
	{ sim::Oracle g; const void *d, *dw; size_t n, nw; if (!sim::file_get("f", &d, &n) || !sim::file_get("w", &dw, &nw)) sim::fail("content", "there is no file");
		s->a->lp.for_each_packed_layer([&](auto& l) { typedef std::decay_t<decltype(l)> L; const std::string nm = l.get_layer_name_str(); mxArray *a = simmat::find((const char*)d, n, nm.c_str()), *b = simmat::find((const char*)dw, nw, nm.c_str()); if (!a) sim::fail("content", "layer %s is not in the file", nm.c_str()); if (b) within(nm, b, a);
			if constexpr (is_layer_learnable<L>::value) { const double lr = l.get_gradWorks().learning_rate(); bool has = false; for (int i = 0; i < a->nf; ++i) if (const mxArray* x = a->vals[i]) if (x->m == 1 && x->n == 1 && (x->cls == mxSINGLE_CLASS || x->cls == mxDOUBLE_CLASS) && (x->cls == mxSINGLE_CLASS ? *(float*)x->data : *(double*)x->data) == lr) has = true; if (!has) sim::fail("content", "no number of %s is its learning rate %.9g", nm.c_str(), lr); sim::probe("state_number");
				for (const char* f : { "m_Vw", "m_optMtxA", "m_optMtxB", "m_ILRGain", "m_prevdLdW" }) if (const mxArray* x = mxGetField(a, 0, f)) { if ((int)x->m != (int)l.get_weights().rows() || (int)x->n != (int)l.get_weights().cols()) sim::fail("content", "%s.%s is %zux%zu", nm.c_str(), f, x->m, x->n); sim::probe("state_matrix"); } }
			mxDestroyArray(a); if (b) mxDestroyArray(b); }); }
	if (sim::chance(.5)) { Cfg c2 = c; c2.seed += 17; S* t = new S(c2); if ((int)t->nn->fprop(t->td->train_x())) sim::fail("setup", "initialisation failed"); auto* nw2 = keep(t->weights()); if (!t->nn->read_weights("f")) sim::fail("rejected", "weights could not be read from the file of the whole network"); same_wts(w, t->weights(), "network that read the file"); { sim::Oracle g; delete nw2; } delete t; }
	{ sim::Oracle g; delete w; } delete fp; delete s; if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated", (long long)(sim::live_blocks() - l0));
}
#define STATE(A) static void z_##A() { t_state<A, Iw<float>>(); } SIM_SCENARIO(P17, A##_state, z_##A, tune_mat, 1)
STATE(AFc) STATE(ADo) STATE(APo) STATE(APa)
// ---- data sets ---------------------------------------------------------------------------------------------------------
static void t_td() {
	typedef float R; typedef inmem_train_data<R> TD; Cfg c = draw_cfg(12); c.onehot = sim::chance(.5); sim::context("%s", c.str().c_str()); global_denormalized_floats_mode(); simmat::changes_fp = sim::chance(.5); const auto l0 = sim::live_blocks(); auto faults = [] { return sim::alloc_failures() + sim::io_faults(); }; FpMode fp;
	auto* td = new TD; if (!fill_td(*td, c)) sim::fail("setup", "data set rejected"); const bool hurt = sim::chance(.6); bool there = false;
	for (int k = 0; k < 2 && !there; ++k) { const bool h = hurt && !k; const auto f0 = faults(); auto* ar = new omatfile<>; if (h) Quiet::set(true); ME ec = ar->open("f", sim::chance(.5) ? omatfile<>::WriteDelete : omatfile<>::UpdateDelete); if (ec == ME::Success) { *ar & *td; ec = ar->get_last_error(); const ME e2 = ar->close(); if (ec == ME::Success) ec = e2; } Quiet::set(false); fp.check("writing of a data set"); delete ar; there = ec == ME::Success; if (!there && faults() == f0) sim::fail("rejected", "data set could not be written: %d", ec); check_td<R>(*td, c); sim::probe(there ? "td_written" : "td_write_failed"); }
	auto* t = new TD; if (sim::chance(.3)) { Cfg c2 = c; c2.n += 3; c2.xw += 1; c2.dseed += 5; if (!fill_td(*t, c2)) sim::fail("setup", "data set rejected"); }
	bool got = false; for (int k = 0; k < 2 && !got; ++k) { const bool h = hurt && !k; const auto f0 = faults(); auto* ar = new imatfile<>; if (h) Quiet::set(true); ME ec = ar->open("f"); if (ec == ME::Success) { *ar & *t; ec = ar->get_last_error(); ar->close(); } Quiet::set(false); fp.check("reading of a data set"); delete ar; got = ec == ME::Success; if (!got && faults() == f0) sim::fail("rejected", "data set could not be read: %d", ec); sim::probe(got ? "td_read" : "td_read_failed"); }
	check_td<R>(*t, c); delete t; delete td; if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated", (long long)(sim::live_blocks() - l0));
}
SIM_SCENARIO(P17, data_set, t_td, tune_mat, 1)
// ---- the dumper: what the network works on, at the moments asked for --------------------------------------------------
#include <nntl/interface/inspectors/dumper.h>
struct DumpLog { std::vector<std::string> names; std::vector<int> types; std::vector<std::pair<std::string, V>> files; std::vector<int> kind, epoch, batch; std::vector<int> batches; int64_t total = 0; };
static DumpLog* g_dl;
template<class R, class C> struct Dm : inspector::_dumper<Dm<R, C>, R, omatfileEx<>, C> {
	typedef inspector::_dumper<Dm<R, C>, R, omatfileEx<>, C> B; typedef math::smatrix<R> mtx; V* root = nullptr; std::vector<int>* st = nullptr; std::vector<V>* open = nullptr; int ep = -1, bt = -1;
	~Dm() noexcept { sim::Oracle g; delete root; delete st; delete open; }
	template<class T> static V var(const math::smatrix<T>& m) { V v; v.cls = cls_of<T>(); v.r = (int)m.rows(); v.c = (int)m.cols(); v.bytes.assign((const char*)m.data(), m.numel() * sizeof(T)); return v; }
	template<class T> void put(const char* n, const math::smatrix<T>& m) noexcept { if (!root || open->empty()) return; sim::Oracle g; open->back().set(n, var(m)); }
	void start() noexcept { sim::Oracle g; delete root; root = new V; if (!st) { st = new std::vector<int>; open = new std::vector<V>; } st->clear(); open->clear(); }
	void finish(const char* fn, int kind) noexcept { sim::Oracle g; g_dl->files.push_back({ fn, *root }); g_dl->kind.push_back(kind); g_dl->epoch.push_back(ep); g_dl->batch.push_back(bt); delete root; root = nullptr; }
	void enter(int l, bool) noexcept { if (!root) return; sim::Oracle g; st->push_back(l); if (st->size() < 2 || (*st)[st->size() - 2] != l) open->push_back(V()); else open->push_back(V{ -7 }); }
	void leave() noexcept { if (!root) return; sim::Oracle g; V v = open->back(); open->pop_back(); const int l = st->back(); st->pop_back(); if (v.cls == -7) { for (auto& p : v.ch) open->back().set(p.first, p.second); } else root->set(g_dl->names[l], v); }
	void init_nnet(const size_t n, const numel_cnt_t e) noexcept { { sim::Oracle g; g_dl->names.assign(n, ""); g_dl->types.assign(n, 0); g_dl->total = e; } B::init_nnet(n, e); }
	template<class S> void init_layer(const layer_index_t l, S&& nm, const layer_type_id_t t) noexcept { { sim::Oracle g; g_dl->names[l] = nm; g_dl->types[l] = (int)t; } B::init_layer(l, std::forward<S>(nm), t); }
	void train_epochBegin(const numel_cnt_t e, const numel_cnt_t nb) noexcept { ep = (int)e; { sim::Oracle g; g_dl->batches.push_back((int)nb); } B::train_epochBegin(e, nb); }
	void train_batchBegin(const numel_cnt_t b) noexcept { bt = (int)b; start(); B::train_batchBegin(b); }
	template<class T> void train_preBprop(const math::smatrix<T>& y) noexcept { char f[64]; snprintf(f, sizeof f, "d/ep%03d_%03d_f.mat", ep + 1, bt); finish(f, 0); start(); B::train_preBprop(y); }
	void train_batchEnd() noexcept { char f[64]; snprintf(f, sizeof f, "d/ep%03d_%03d_b.mat", ep + 1, bt); finish(f, 1); B::train_batchEnd(); }
	void train_preCalcError(const data_set_id_t s) noexcept { bt = s; start(); B::train_preCalcError(s); }
	void train_postCalcError() noexcept { char f[64]; snprintf(f, sizeof f, "d/ep%03d_err_%d.mat", ep + 1, bt); finish(f, 2); B::train_postCalcError(); }
	void fprop_begin(const layer_index_t l, const mtx& p, const bool t) noexcept { enter((int)l, true); B::fprop_begin(l, p, t); }
	void fprop_end(const mtx& A) noexcept { if (root && open->back().cls != -7) put("A", A); leave(); B::fprop_end(A); }
	template<class T> void bprop_begin(const layer_index_t l, const math::smatrix<T>& d) noexcept { enter((int)l, true); if (root && open->back().cls != -7) put("dLdA", d); B::bprop_begin(l, d); }
	void bprop_end(const mtx& d) noexcept { leave(); B::bprop_end(d); }
	void fprop_preNesterovMomentum(const mtx& vW, const R m, const mtx& W) noexcept { put("f_preNM_vW", vW); if (root && !open->empty()) { sim::Oracle g; V v; v.cls = cls_of<R>(); v.bytes.assign((const char*)&m, sizeof m); open->back().set("f_preNM_momentum", v); } B::fprop_preNesterovMomentum(vW, m, W); }
	void fprop_makePreActivations(const mtx& W, const mtx& p) noexcept { put("W", W); B::fprop_makePreActivations(W, p); }
	void bprop_dLdZ(const mtx& d) noexcept { put("dLdZ", d); B::bprop_dLdZ(d); }
	void apply_grad_begin(const mtx& W, const mtx& d) noexcept { put("W", W); put("dLdW", d); B::apply_grad_begin(W, d); }
	void apply_grad_update(const mtx& W, const mtx& u) noexcept { put("a_WUpd_W", W); put("a_WUpd", u); B::apply_grad_update(W, u); }
	void apply_grad_end(const mtx& W) noexcept { put("a_W", W); B::apply_grad_end(W); }
	void apply_grad_preILR(const mtx& d, const mtx& p, const mtx& G) noexcept { put("Gain_preILR", G); B::apply_grad_preILR(d, p, G); }
	void apply_grad_postILR(const mtx& d, const mtx& G) noexcept { put("Gain_postILR", G); B::apply_grad_postILR(d, G); }
};
template<class R, class C> struct Dw : d_int_nI<R> { typedef Dm<R, C> iInspect_t; };
// what is to be dumped when
struct When { std::vector<int64_t> eps; int n = 0, stride = 0; bool ep(int64_t e, int64_t tot) const { if (eps.empty()) return e == tot - 1; for (auto x : eps) if (x != -1 && std::min(x, tot - 1) == e) return true; return false; } };
template<class C> struct WhenOf;
template<> struct WhenOf<inspector::conds::EpochNum> { static constexpr bool eps = true, calc = false, nst = false, train = true; static bool batch(const When& w, int64_t e, int64_t b, int64_t, int64_t tot) { return b == 0 && w.ep(e, tot); } };
template<> struct WhenOf<inspector::conds::EpochNumWLastBatch> { static constexpr bool eps = true, calc = false, nst = false, train = true; static bool batch(const When& w, int64_t e, int64_t b, int64_t nb, int64_t tot) { return w.ep(e, tot) && b == (e == tot - 1 ? nb - 1 : 0); } };
template<> struct WhenOf<inspector::conds::EpochNumWFirstNLastBatch> { static constexpr bool eps = true, calc = false, nst = true, train = true; static bool batch(const When& w, int64_t e, int64_t b, int64_t nb, int64_t tot) { return e == 0 ? b < w.n && b % std::max(1, w.stride) == 0 : WhenOf<inspector::conds::EpochNumWLastBatch>::batch(w, e, b, nb, tot); } };
template<> struct WhenOf<inspector::conds::CalcErrByEpochNum> { static constexpr bool eps = true, calc = true, nst = false, train = true; static bool batch(const When& w, int64_t e, int64_t b, int64_t, int64_t tot) { return b == 0 && w.ep(e, tot); } };
template<> struct WhenOf<inspector::conds::CalcErrOnlyByEpochNum> { static constexpr bool eps = true, calc = true, nst = false, train = true; static bool batch(const When&, int64_t, int64_t, int64_t, int64_t) { return false; } };
template<> struct WhenOf<inspector::conds::FirstBatches> { static constexpr bool eps = false, calc = false, nst = true, train = true; static bool batch(const When& w, int64_t, int64_t b, int64_t, int64_t) { return b < w.n && b % std::max(1, w.stride) == 0; } };
template<class C> static void set_n(C&, const When&) {}
static void set_n(inspector::conds::EpochNumWFirstNLastBatch& c, const When& w) { c.m_firstNBatches = w.n; c.m_firstNBatchesStride = w.stride; }
static void set_n(inspector::conds::FirstBatches& c, const When& w) { c.maxBatches = w.n; c.stride = w.stride; }
template<class A, class C> static void t_dump() {
	typedef float R; typedef Dw<R, C> I; typedef Sys<A, I> S; typedef WhenOf<C> WO; Cfg c = draw_cfg(12); c.onehot = A::onehot; c.epochs = (int)sim::rng(1, 4); if (c.bs) c.bs = std::max(c.bs, (c.n + 4) / 5); if (c.fs && c.fs < c.bs) c.fs = c.bs; sim::context("%s %s", A::name, c.str().c_str()); simmat::changes_fp = sim::chance(.5); const auto l0 = sim::live_blocks(); { sim::Oracle g; g_dl = new DumpLog; }
	auto* s = new S(c); auto& ins = s->nn->get_iInspect(); ins.set_dir_to_dump("d"); When* w; { sim::Oracle g; w = new When; } if (WO::eps && sim::chance(.8)) { const int k = (int)sim::rng(1, 3); sim::Oracle g; for (int i = 0; i < k; ++i) w->eps.push_back(WO::calc && sim::chance(.3) ? -1 : (int64_t)sim::rng(0, c.epochs)); } w->n = (int)sim::rng(1, 4); w->stride = (int)sim::rng(0, 3);
	if constexpr (WO::eps) for (auto e : w->eps) ins.getCondDump().m_epochsToDump.push_back(e); set_n(ins.getCondDump(), *w);
	const int lst = (int)sim::rnd(5); std::vector<int>* lids; { sim::Oracle g; lids = new std::vector<int>; } const int nl = (int)s->a->lp.total_layers(); if (lst) { const int k = (int)sim::rng(1, 2); std::vector<layer_index_t>* v = new std::vector<layer_index_t>; for (int i = 0; i < k; ++i) { int l = (int)sim::rnd(nl); v->push_back((layer_index_t)l); sim::Oracle g; lids->push_back(l); } if (lst == 1) ins.whitelist(std::move(*v)); else if (lst == 2) ins.blacklist(std::move(*v)); else for (auto l : *v) { if (lst == 3) ins.whitelist(l); else ins.blacklist(l); } delete v; }
	const bool inactive = sim::chance(.2), force = sim::chance(.6), off = inactive && !force; if (inactive) ins.turn_off(); FpMode fp;
	{ nnet_train_opts<R, Obs<R>> o(c.epochs, c.evals); o.batchSize(c.bs); if (c.fs) o.maxFpropSize(c.fs); o.calcFullLossValue(c.full).bForceReinitTD(true).ImmediatelyDeinit(sim::chance(.3)).noDivergenceCheck().bForceInspectorOnDuringTraining(force); if ((int)s->nn->train(*s->td, o, NoCb())) sim::fail("setup", "training failed"); } if (ins.isInspectorActive() == inactive) sim::fail("moment", "the inspector was %s before the training and is not afterwards", inactive ? "off" : "on"); fp.check("training"); if (sim::open_files()) sim::fail("leak", "a dump file is still open");
	{ sim::Oracle g; int made = 0, reused = 0; auto& d = *g_dl; auto allowed = [&](int l) { const bool in = std::find(lids->begin(), lids->end(), l) != lids->end(); return lst == 0 ? true : lst & 1 ? in : !in; };
		for (size_t i = 0; i < d.files.size(); ++i) {
			const int k = d.kind[i], e = d.epoch[i], b = d.batch[i]; bool want = k == 2 ? WO::calc && b == 0 && (e < 0 ? std::find(w->eps.begin(), w->eps.end(), -1) != w->eps.end() : w->ep(e, d.total)) : WO::batch(*w, e, b, d.batches[e], d.total); if (off) want = false;
			bool later = false; for (size_t j = i + 1; j < d.files.size(); ++j) later |= d.files[j].first == d.files[i].first; if (later) { ++reused; continue; } const char* fn = d.files[i].first.c_str(); const void* p; size_t n; const bool is = sim::file_get(fn, &p, &n); if (is != want) sim::fail("moment", "%s %s although it %s", fn, is ? "was dumped" : "was not dumped", is ? "was not asked for" : "was asked for"); if (!want) continue; ++made;
			V f; for (auto& q : d.files[i].second.ch) { int l = (int)(std::find(d.names.begin(), d.names.end(), q.first) - d.names.begin()); if (allowed(l)) f.ch.push_back(q); else { mxArray* a = simmat::find((const char*)p, n, q.first.c_str()); if (a) sim::fail("layer", "%s holds layer %s which was not asked for", fn, q.first.c_str()); } } for (auto& q : f.ch) { mxArray* a = simmat::find((const char*)p, n, q.first.c_str()); same_var(std::string(fn) + ":" + q.first, a, q.second); mxDestroyArray(a); }
		}
		sim::probe(made ? "dumped" : "not_dumped"); if (reused) sim::probe("same_file_again"); sim::note(made); sim::state(made * 131 + lst); }
	delete s; { sim::Oracle g; delete w; delete lids; delete g_dl; g_dl = nullptr; } if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated", (long long)(sim::live_blocks() - l0));
}
static void tune_dump(sim::Knobs& k) {}
#define DUMP(A, C) static void d_##A##C() { t_dump<A, inspector::conds::C>(); } SIM_SCENARIO(P25, A##_dump_##C, d_##A##C, tune_dump, 1)
DUMP(AFc, EpochNumWFirstNLastBatch) DUMP(APh, CalcErrByEpochNum) DUMP(APt, EpochNum) DUMP(AFc, FirstBatches) DUMP(APo, EpochNumWLastBatch) DUMP(ADo, CalcErrOnlyByEpochNum)
