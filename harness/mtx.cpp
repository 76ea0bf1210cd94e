// P18: a pool of matrices behaves as a reference model of owned and borrowed storage, under memory shortage
#include <algorithm>
#include <cstring>
#include <memory>
#include <vector>
#include <cmath>
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
namespace sim { std::ostream nullout(nullptr); }
using namespace nntl;
using namespace nntl::math;

// storage of the model: values and whether they are determined yet
struct Store { std::vector<double> v; std::vector<char> known; bool gone = false; explicit Store(size_t n) : v(n), known(n, 0) {} };
typedef std::shared_ptr<Store> SP;
struct Slot { // model of one matrix
	SP st; size_t off = 0; int r = 0, c = 0; bool bias = false, holey = false, bir = false, ext = false, failed = false, deform = false;
	bool empty() const { return !st; } bool dead() const { return st && st->gone; } bool usable() const { return st && !st->gone && r > 0 && c > 0; } size_t n() const { return (size_t)r * c; } int rnb() const { return r - (bias && bir); } int cnb() const { return c - (bias && !bir); } size_t nnb() const { return (size_t)rnb() * cnb(); }
	size_t cap() const { return st->v.size() - off; } size_t at(int i, int j) const { return off + i + (size_t)r * j; } double& val(int i, int j) { return st->v[at(i, j)]; } void put(size_t k, double x) { st->v[off + k] = x; st->known[off + k] = 1; }
	void release() { if (st && !ext) st->gone = true; st.reset(); off = 0; r = c = 0; } void clear() { release(); ext = holey = bir = failed = false; }
	void set_biases() { if (bir) for (int j = 0; j < c; ++j) put((size_t)(r - 1) + (size_t)r * j, 1); else for (int i = 0; i < r; ++i) put((size_t)i + (size_t)r * (c - 1), 1); holey = false; }
};
static void copy(Slot& d, const Slot& s, size_t n) { std::vector<double> v(s.st->v.begin() + s.off, s.st->v.begin() + s.off + n); std::vector<char> k(s.st->known.begin() + s.off, s.st->known.begin() + s.off + n); std::copy(v.begin(), v.end(), d.st->v.begin() + d.off); std::copy(k.begin(), k.end(), d.st->known.begin() + d.off); }

template<class T> struct Pool {
	typedef smatrix<T> M; typedef smatrix_deform<T> D; enum { NM = 3, ND = 3, N = NM + ND }; M* m[NM]; D* d[ND]; Slot s[N];
	M& at(int i) { return i < NM ? *m[i] : *d[i - NM]; } D& df(int i) { return *d[i - NM]; }
	static bool eq(double w, T g) { return (T)w == g || (w != w && g != g); }
	void verify(int i) {
		M& x = at(i); Slot& q = s[i]; if (q.dead()) return; if (x.empty() != q.empty()) sim::fail("state", "matrix %d is %s", i, q.empty() ? "not empty" : "empty"); if (x.emulatesBiases() != q.bias) sim::fail("state", "matrix %d: bias flag is %d", i, (int)x.emulatesBiases()); if (x.bBatchInRow() != q.bir) sim::fail("state", "matrix %d: batch-in-row flag is %d", i, (int)x.bBatchInRow()); if (x.bDontManageStorage() != q.ext) sim::fail("state", "matrix %d: ownership flag is %d", i, (int)x.bDontManageStorage());
		if (q.empty()) { if (x.isAllocationFailed() && !q.failed) sim::fail("state", "matrix %d reports a failed allocation", i); return; }
		if (x.rows() != q.r || x.cols() != q.c) sim::fail("state", "matrix %d has %d x %d elements instead of %d x %d", i, (int)x.rows(), (int)x.cols(), q.r, q.c); if (!q.usable()) return;
		if (x.rows_no_bias() != q.rnb() || x.cols_no_bias() != q.cnb() || x.numel() != (numel_cnt_t)q.n() || x.numel_no_bias_sBiR() != (numel_cnt_t)q.nnb() || x.batch_size() != (q.bir ? q.c : q.r) || x.sample_size() != (q.bir ? q.rnb() : q.cnb())) sim::fail("state", "matrix %d: derived sizes are wrong", i); if (q.bias && x.isHoleyBiases() != q.holey) sim::fail("state", "matrix %d: holey flag is %d", i, (int)x.isHoleyBiases());
		const T* p = x.data(); if ((uintptr_t)p % utils::mem_align_for<T>() && !q.ext) sim::fail("state", "matrix %d is not aligned", i); for (size_t k = 0; k < q.n(); ++k) if (q.st->known[q.off + k] && !eq(q.st->v[q.off + k], p[k])) sim::fail("content", "matrix %d element %zu is %g instead of %g", i, k, (double)p[k], q.st->v[q.off + k]);
		uint64_t h = 1469598103934665603ull; for (size_t k = 0; k < q.n(); ++k) if (q.st->known[q.off + k]) h = (h ^ (uint64_t)(int64_t)q.st->v[q.off + k]) * 1099511628211ull; sim::note(h);
	}
	void fresh(Slot& q, int r, int c) { q.release(); q.st = std::make_shared<Store>((size_t)r * c); q.r = r; q.c = c; q.holey = false; q.failed = false; if (q.bias) q.set_biases(); }
	void lost(Slot& q) { q.release(); q.failed = true; }
	// outcome of an operation that allocates: a failure needs a fault
	bool result(bool ok, bool faulty, const char* what) { if (!ok && !faulty) sim::fail("failed", "%s failed for no reason", what); sim::probe(ok ? "succeeded" : "failed"); return ok; }
};
static int dim() { return (int)sim::rng(1, 7); }
template<class T> static void s_mtx() {
	typedef Pool<T> P; typedef smatrix<T> M; typedef smatrix_deform<T> D; global_denormalized_floats_mode(); const auto l0 = sim::live_blocks(); P* pl; { sim::Oracle g; pl = new P; } P& p = *pl; for (auto& x : p.m) x = new M; for (auto& x : p.d) x = new D; { sim::Oracle g; for (int i = P::NM; i < P::N; ++i) p.s[i].deform = true; }
	const int n = (int)sim::rng(5, 60); const bool hurt = sim::chance(.7);
	for (int op = 0; op < n; ++op) {
		const int a = (int)sim::rnd(P::N), b = (a + 1 + (int)sim::rnd(P::N - 1)) % P::N, kind = (int)sim::rnd(30), r = dim(), c = dim(); const bool f1 = sim::chance(.5), f2 = sim::chance(.3); const int z = (int)sim::rnd(1000); const uint64_t y = sim::rnd(); if (!sim::keep_op()) continue;
		Slot &A = p.s[a], &B = p.s[b]; M& x = p.at(a); M& w = p.at(b); D* xd = A.deform ? &p.df(a) : nullptr; const auto f0 = sim::alloc_failures(); if (hurt) sim::alloc_faults(true); sim::context("operation %d: kind %d on %d, %d", op, kind, a, b); sim::state((uint64_t)kind * 64 + (uint64_t)A.failed * 2 + A.empty());
		auto done = [&] { sim::alloc_faults(false); return sim::alloc_failures() != f0; }; auto okb = [&](bool ok, const char* what) { const bool f = done(); return p.result(ok, f, what); };
		switch (kind) {
		case 0: case 1: { // construction
			const bool bias = f1, bir = f2; M t0; (void)t0; if (A.deform) { delete p.d[a - P::NM]; if (f1 && !bir) p.d[a - P::NM] = new D(r, c, bias); else p.d[a - P::NM] = new D(r, c, bias, bir); } else { delete p.m[a]; p.m[a] = kind ? new M(smatrix_td::mtx_size_t(r, c), bias, bir) : new M(bir, bir ? c : r, bir ? r : c, bias); }
			const bool ok = okb(!p.at(a).empty(), "construction"); sim::Oracle g; A.clear(); A.bias = bias; A.bir = bir; if (ok) p.fresh(A, r + (bias && bir), c + (bias && !bir)); else { p.lost(A); if (!p.at(a).isAllocationFailed()) sim::fail("state", "isAllocationFailed() is false after a failed construction"); } break; }
		case 2: case 3: case 4: { if (A.ext) break; if (!xd && z % 19 == 0) { const vec_len_t br = (z / 19) % 3 == 0 ? r : -(vec_len_t)(z % 5), bc = (z / 19) % 3 == 0 ? -(vec_len_t)(z % 5) : c; const bool g = kind == 4 ? x.resize(smatrix_td::mtx_size_t(br, bc)) : x.resize(br, bc); done(); if (g) sim::fail("state", "resizing to %dx%d succeeded", (int)br, (int)bc); sim::probe("impossible-size"); break; }
			const bool same = A.usable() && sim::events() % 3 == 0; const int rr = same ? A.rnb() : r, cc = same ? A.cnb() : c, fr = rr + (A.bias && A.bir), fc = cc + (A.bias && !A.bir); const bool keep = !A.deform && A.usable() && A.r == fr && A.c == fc;
			bool ok; if (xd) ok = kind == 2 ? xd->resize((vec_len_t)rr, (vec_len_t)cc) : kind == 3 ? xd->resize_as_dataset(A.bir ? cc : rr, A.bir ? rr : cc) : xd->resize(smatrix_td::mtx_size_t(rr, cc)); else ok = kind == 2 ? x.resize((vec_len_t)rr, (vec_len_t)cc) : kind == 3 ? x.resize_as_dataset(A.bir ? cc : rr, A.bir ? rr : cc) : x.resize(smatrix_td::mtx_size_t(rr, cc));
			ok = okb(ok, "resize"); sim::Oracle g; if (!ok) p.lost(A); else if (keep) { if (A.bias) A.set_biases(); } else p.fresh(A, fr, fc); break; }
		case 5: { if (A.ext) break; const bool keep = A.usable() && A.r == r && A.c == c; const bool ok = okb(x.resize((vec_len_t)r, (vec_len_t)c, smatrix_td::tag_noBias()), "resize without bias"); sim::Oracle g; A.bias = false; if (!ok) p.lost(A); else if (!keep) p.fresh(A, r, c); break; }
		case 6: { if (xd) xd->clear(); else x.clear(); done(); sim::Oracle g; A.clear(); break; }
		case 7: { if (!A.empty() || A.failed || A.ext) break; x.emulate_biases(f1); x.set_batchInRow(f2); done(); A.bias = f1; A.bir = f2; break; }
		case 8: case 9: { if (!A.usable() || B.dead() || (B.ext && B.empty())) break; if (B.st == A.st) break; if (B.ext && (B.r != A.r || B.c != A.c)) { bool ok = x.clone_to(w); done(); if (ok) sim::fail("accepted", "cloned into a borrowed matrix of another size"); break; }
			bool ok; const bool cf = !B.ext && B.deform && kind == 9; if (cf) ok = p.df(b).cloneFrom(x); else ok = x.clone_to(w); const bool keep = !cf && !B.empty() && B.r == A.r && B.c == A.c; ok = okb(ok, "clone"); sim::Oracle g; if (!ok) { B.bias = false; p.lost(B); break; } if (!B.ext && !keep) { bool bb = B.bias; B.bias = false; p.fresh(B, A.r, A.c); B.bias = bb; } B.bias = A.bias; B.bir = A.bir; B.holey = A.holey; copy(B, A, A.n()); break; }
		case 10: { if (!A.usable() || (A.bias && A.bir) || B.dead() || (B.ext && B.empty()) || B.st == A.st) break; const int cn = A.cnb(); if (B.ext && (B.r != A.r || B.c != cn)) break; const bool keep = B.usable() && B.r == A.r && B.c == cn; const bool ok = okb(x.clone_to_no_bias(w), "clone without bias"); sim::Oracle g; if (!ok) { B.bias = w.emulatesBiases(); p.lost(B); break; } B.bias = B.holey = false; if (!B.ext && !keep) p.fresh(B, A.r, cn); B.bir = A.bir; copy(B, A, A.nnb()); break; }
		case 11: { if (!A.usable() || !B.usable() || B.st == A.st || A.n() != B.n() || A.bias != B.bias) break; const bool ok = okb(x.copy_to(w), "copy"); (void)ok; sim::Oracle g; copy(B, A, A.n()); B.holey = A.holey; B.r = A.r; B.c = A.c; B.bir = A.bir; break; }
		case 12: { if (!A.usable() || !B.usable() || B.st == A.st || (A.bias && A.bir) || (B.bias && B.bir) || (B.bias && A.bir) || A.r != B.r || A.cnb() != B.cnb()) break; okb(x.copy_data_skip_bias(w), "copy"); sim::Oracle g; B.bir = A.bir; copy(B, A, A.nnb()); break; }
		case 13: case 14: { if (A.dead()) break; // move assignment
			if (B.deform && A.deform) p.df(b) = std::move(*xd); else if (B.deform) p.df(b) = std::move(x); else if (A.deform && f2) break; else w = std::move(x); done(); sim::Oracle g; B.release(); bool df = B.deform; B = A; B.deform = df; A.st.reset(); A.off = 0; A.r = A.c = 0; A.failed = false; if (!x.empty()) sim::fail("state", "a moved-from matrix is not empty"); if (w.data() && false) {} if (xd) xd->clear(); else x.clear(); A.ext = A.holey = A.bir = false; break; }
		case 15: { if (A.dead()) break; if (A.deform) { D* nd = new D(std::move(*xd)); delete xd; p.d[a - P::NM] = nd; } else { M* nm = new M(std::move(x)); delete &x; p.m[a] = nm; } done(); break; } // move construction
		case 16: { if (!A.usable() || B.st == A.st) break; if (f1 && (A.bias && A.bir)) break; if (f1) w.useExternalStorage_no_bias(x); else w.useExternalStorage(x); done(); sim::Oracle g; B.release(); B.st = A.st; B.off = A.off; B.ext = true; B.failed = false; B.bir = A.bir; B.r = f1 ? A.rnb() : A.r; B.c = f1 ? A.cnb() : A.c; B.bias = f1 ? false : A.bias; B.holey = f1 ? false : A.bias && A.holey; break; }
		case 17: { if (!A.usable() || B.st == A.st || A.bias && A.bir || A.cnb() < 1) break; const int cb = z % A.cnb(), cn = 1 + (int)(y % (uint64_t)(A.cnb() - cb)); w.useExternalStorage_no_bias(x, cb, cn); done(); sim::Oracle g; B.release(); B.st = A.st; B.off = A.off + (size_t)A.r * cb; B.ext = true; B.failed = false; B.bir = A.bir; B.r = A.r; B.c = cn; B.bias = B.holey = false; break; }
		case 18: { const bool give = sim::events() % 4; const bool ok = okb(x.useInternalStorage(give ? r : 0, give ? c : 0, f1, f2), "useInternalStorage"); sim::Oracle g; A.clear(); A.bias = f1; A.bir = f2; if (!ok) p.lost(A); else if (give) p.fresh(A, r + (f1 && f2), c + (f1 && !f2)); break; }
		case 19: { done(); if (!A.usable()) break; const double v = z; switch (z % 5) { case 0: x.fill((T)v); { sim::Oracle g; for (size_t k = 0; k < A.n(); ++k) A.put(k, v); } break; case 1: if (A.bias && A.holey && A.bir) break; x.zeros(); { sim::Oracle g; if (A.bir) { for (size_t k = 0; k < A.n(); ++k) A.put(k, 0); if (A.bias) for (int j = 0; j < A.c; ++j) A.put((size_t)(A.r - 1) + (size_t)A.r * j, 1); } else for (size_t k = 0; k < A.nnb(); ++k) A.put(k, 0); } break; case 2: x.ones(); { sim::Oracle g; for (size_t k = 0; k < A.n(); ++k) A.put(k, 1); A.holey = false; } break;
			case 3: if (A.bias && A.bir) break; { const int j = (int)(y % (uint64_t)A.cnb()); x.fill_column_with(j, (T)v); sim::Oracle g; for (int i = 0; i < A.r; ++i) A.put((size_t)i + (size_t)A.r * j, v); } break; case 4: if (A.bias && !A.bir) break; { const int i = (int)(y % (uint64_t)A.rnb()); x.fill_row_with(i, (T)v); sim::Oracle g; for (int j = 0; j < A.c; ++j) A.put((size_t)i + (size_t)A.r * j, v); } break; } break; }
		case 20: case 21: { done(); if (!A.usable()) break; const int i = z % A.rnb(), j = (int)(y % (uint64_t)A.cnb()); x.set(i, j, (T)z); { sim::Oracle g; A.put((size_t)i + (size_t)A.r * j, z); } if (x.get(i, j) != (T)z) sim::fail("content", "get() does not return what set() stored"); break; }
		case 22: { done(); if (!A.usable() || (A.bias && A.bir)) break; std::vector<short>* sv; std::vector<T>* tv; { sim::Oracle g; sv = new std::vector<short>; tv = new std::vector<T>; for (size_t k = 0; k < A.nnb(); ++k) { const int v = (int)((y >> (k % 40)) % 1000); sv->push_back((short)v); tv->push_back((T)v); A.put(k, v); } } if (f1) x.fill_from_array_no_bias(sv->data()); else x.fill_from_array_no_bias(tv->data()); sim::Oracle g; delete sv; delete tv; break; }
		case 23: { done(); if (!A.usable() || !A.bias) break; if (f1) { x.set_biases(); sim::Oracle g; A.set_biases(); break; } if (!A.bir) { std::vector<T>* tv; int nz = 0; { sim::Oracle g; tv = new std::vector<T>; for (int i = 0; i < A.r; ++i) { const int v = (int)(y >> (i % 60)) & 1; nz += v; tv->push_back((T)v); A.put((size_t)i + (size_t)A.r * (A.c - 1), v); } A.holey = nz != A.r; } x.copy_biases_from(tv->data(), nz); sim::Oracle g; delete tv; }
			else { bool h = false; for (int j = 0; j < A.c; ++j) { const int v = (int)(y >> (j % 60)) & 1; h |= !v; x.set(A.r - 1, j, (T)v); sim::Oracle g; A.put((size_t)(A.r - 1) + (size_t)A.r * j, v); } x.holey_biases(h); A.holey = h; } break; }
		case 24: { done(); if (!A.usable() || !A.bias) break; bool all = true, bin = true; for (int k = 0; k < (A.bir ? A.c : A.r); ++k) { const size_t e = A.bir ? (size_t)(A.r - 1) + (size_t)A.r * k : (size_t)k + (size_t)A.r * (A.c - 1); if (!A.st->known[A.off + e]) { all = bin = false; goto skip; } const double v = A.st->v[A.off + e]; all &= v == 1; bin &= v == 1 || v == 0; } if (x.test_biases_ok() != (A.holey ? bin : all)) sim::fail("content", "test_biases_ok() is wrong (holey %d)", (int)A.holey); sim::probe("bias_tests"); skip: break; }
		case 25: { done(); if (!A.usable() || !B.usable()) break; bool e = A.bias == B.bias && A.bir == B.bir && A.r == B.r && A.c == B.c && A.holey == B.holey; bool und = false; if (e) for (size_t k = 0; k < A.n(); ++k) { if (!A.st->known[A.off + k] || !B.st->known[B.off + k]) und = true; else if (A.st->v[A.off + k] != B.st->v[B.off + k]) e = false; } if (und && e) break; if ((x == w) != e || (x != w) == e) sim::fail("content", "comparison of matrices %d and %d is wrong", a, b); break; }
		case 26: { if (!xd || A.ext) break; const size_t ne = (size_t)r * c + (size_t)(z % 9); const bool bi = f1, ho = false, br = f2; const bool ok = okb(xd->resize((numel_cnt_t)ne, &bi, &ho, &br), "resize to a number of elements"); sim::Oracle g; if (!ok) { p.lost(A); if (!xd->empty()) sim::fail("state", "not empty after a failed resize"); break; } A.release(); A.bias = bi; A.bir = br; A.holey = false; A.failed = false; A.st = std::make_shared<Store>(ne); if ((bi && br && r < 2) || (bi && !br && c < 2)) { A.bias = false; xd->_drop_biases(); } xd->deform(r, c); A.r = r; A.c = c; if (A.bias) { xd->set_biases(); A.set_biases(); } break; }
		case 27: { done(); if (!xd || !A.usable()) break; // deformation within the storage
			const int mn = 1 + A.bias; if (r * c > (int)A.cap() || (A.bir ? r < mn : c < mn)) break; switch (z % 4) { case 0: xd->deform(r, c); if (A.bias) { xd->set_biases(); } { sim::Oracle g; A.r = r; A.c = c; if (A.bias) A.set_biases(); } break; case 1: { if ((A.bir ? A.r : A.c) * r > (int)A.cap()) break; const int old = A.bir ? A.c : A.r; if (A.holey && r == old) break; xd->deform_batch_size_with_biases(r); sim::Oracle g; (A.bir ? A.c : A.r) = r; if (A.bias && r != old) A.set_biases(); break; }
			case 2: { const int bs = A.bir ? c : r, ss = A.bir ? r : c; if (A.holey && r == A.r && c == A.c) break; const bool ch = r != A.r || c != A.c; xd->deform_dataset(bs, ss); sim::Oracle g; A.r = r; A.c = c; if (A.bias && ch) A.set_biases(); break; } case 3: { if (A.bias && !B.usable()) break; if (!B.usable() || B.n() > A.cap() || A.bias != B.bias || A.bias) break; xd->deform_like(w); sim::Oracle g; A.r = B.r; A.c = B.c; A.bir = B.bir; break; } } break; }
		case 28: { done(); if (!xd || !A.usable() || (A.bias && A.bir)) break; switch (z % 3) { case 0: { const bool h = xd->hide_biases(); if (h != A.bias) sim::fail("state", "hide_biases() returned %d", (int)h); if (xd->emulatesBiases() || xd->cols() != A.cnb()) sim::fail("state", "biases are not hidden"); xd->restore_biases(h); break; } case 1: if (A.cnb() >= 2) { const int k = 1 + (int)(y % (uint64_t)(A.cnb() - 1)); const bool h = xd->hide_last_n_cols(k); if (xd->cols() != A.cnb() - k || xd->emulatesBiases()) sim::fail("state", "columns are not hidden"); xd->restore_last_n_cols(h, k); } break; case 2: if (A.c >= 2) { xd->hide_last_col(); xd->restore_last_col(); } break; } break; }
		case 29: { done(); if (!A.usable() || (A.bias && A.bir) || A.cnb() < 1) break; const int cb = z % A.cnb(), cn = 1 + (int)(y % (uint64_t)(A.cnb() - cb)); M t = x.submatrix_cols_no_bias(cb, cn); if (t.rows() != A.r || t.cols() != cn || !t.bDontManageStorage() || t.emulatesBiases()) sim::fail("state", "wrong submatrix"); for (int j = 0; j < cn; ++j) for (int i = 0; i < A.r; ++i) { const size_t e = A.at(i, cb + j); if (A.st->known[e] && !P::eq(A.st->v[e], t.get(i, j))) sim::fail("content", "submatrix element %d,%d", i, j); } break; }
		}
		sim::alloc_faults(false); sim::context("after operation %d: kind %d on %d, %d", op, kind, a, b); { sim::Oracle g; for (int i = 0; i < P::N; ++i) p.verify(i); }
	}
	for (auto* q : p.m) delete q; for (auto* q : p.d) delete q; if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated after the matrices are gone", (long long)(sim::live_blocks() - l0)); sim::Oracle g; delete pl;
}
static void tune_mt(sim::Knobs& k) { static const double q[] = { .05, .15, .4 }; k.p_allocfail = q[sim::rnd(3)]; k.max_allocfail = 1 + (unsigned)sim::rnd(8); k.fail_throwing = false; }
#define MT(n, T) static void m_##n() { s_mtx<T>(); } SIM_SCENARIO(P18, n, m_##n, tune_mt, 1)
MT(float_pool, float) MT(double_pool, double) MT(int_pool, int)
