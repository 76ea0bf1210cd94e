// Data files under read errors, corruption and memory shortage: P15 binary files, P16 JSON files
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
#include <cmath>
#include "common.h"
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
#include <nntl/nntl.h>
#include <nntl/train_data/seq_data.h>
#include <nntl/_supp/io/binfile.h>
#include <nntl/_supp/io/jsonreader.h>
namespace sim { std::ostream nullout(nullptr); }
using namespace nntl;
using nntl_supp::binfile; using nntl_supp::jsonreader;

// ---- model of the content of a file -------------------------------------------------------------------------------
struct Field { std::string name; uint32_t rows = 0, cols = 0; int type = 0; std::vector<double> v; }; // v column-major
struct Image { std::string bytes; };
static double value(int type) { // representable in both element types half of the time
	double u; switch (sim::rnd(5)) { case 0: u = (double)(int64_t)(sim::rnd(2000)) - 1000; break; case 1: u = (double)(int64_t)sim::rnd(1u << 20) / 1024.0 - 300; break; case 2: u = (double)(sim::rnd() >> 11) * (1.0 / 9007199254740992.0); break; case 3: u = sim::chance(.5) ? 0.0 : -1e-3; break; default: u = (double)(int64_t)sim::rnd() * 1e-9; }
	return type == 1 ? (double)(float)u : u;
}
static void put(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }
template<class T> static void putv(std::string& s, T v) { put(s, &v, sizeof v); }
static void put_field(std::string& s, const Field& f) {
	putv<uint32_t>(s, f.rows); putv<uint32_t>(s, f.cols); char nm[15]; memset(nm, 0, sizeof nm); memcpy(nm, f.name.data(), std::min<size_t>(15, f.name.size())); put(s, nm, 15); putv<uint8_t>(s, (uint8_t)f.type);
	for (double d : f.v) if (f.type == 0) putv<double>(s, d); else putv<float>(s, (float)d);
}
static Field mk_field(const std::string& n, uint32_t r, uint32_t c, int type) { Field f; f.name = n; f.rows = r; f.cols = c; f.type = type; for (uint64_t i = 0; i < (uint64_t)r * c; ++i) f.v.push_back(value(type)); return f; }

// ---- reference reader of the binary format ---------------------------------------------------------------------------
struct Parsed { bool ok = false; std::vector<Field> f; std::vector<int> cls; bool fits = true; };
struct Rd { const std::string& s; size_t o; bool get(void* p, size_t n) { if (s.size() - o < n || o > s.size()) return false; memcpy(p, s.data() + o, n); o += n; return true; } };
static bool rd_field(Rd& r, Field& f) {
	char nm[16]; uint8_t t; if (!r.get(&f.rows, 4) || !r.get(&f.cols, 4) || !r.get(nm, 15) || !r.get(&t, 1)) return false; nm[15] = 0; f.name = nm; f.type = t; if (!f.rows || !f.cols || f.rows > 0x7fffffffu || f.cols > 0x7fffffffu || t > 1) return false;
	const unsigned __int128 n = (unsigned __int128)f.rows * f.cols * (t ? 4 : 8); if (n > r.s.size()) return false; f.v.clear(); for (uint64_t i = 0; i < (uint64_t)f.rows * f.cols; ++i) if (t) { float x; if (!r.get(&x, 4)) return false; f.v.push_back((double)x); } else { double x; if (!r.get(&x, 8)) return false; f.v.push_back(x); } return true;
}
enum Kind { MTX, MTXD, TD, SEQ };
static Parsed parse(const std::string& s, Kind k) {
	Parsed p; Rd r{ s, 0 }; uint32_t sig; uint16_t ver, fc, cc; if (!r.get(&sig, 4) || !r.get(&ver, 2) || !r.get(&fc, 2) || !r.get(&cc, 2)) return p; if (sig != 0x6c746e6eu || ver) return p;
	if (k == MTX || k == MTXD) { if (fc != 1 || cc) return p; Field f; if (!rd_field(r, f)) return p; p.f.push_back(f); p.ok = true; return p; }
	if (k == TD) {
		static const char* nm[] = { "train_x", "train_y", "test_x", "test_y" }; if (fc != 4 || cc) return p; p.f.resize(4); bool have[4] = { false, false, false, false };
		for (int i = 0; i < 4; ++i) { Field f; if (!rd_field(r, f)) return p; int id = -1; for (int j = 0; j < 4; ++j) if (f.name == nm[j]) id = j; if (id < 0 || have[id]) return p; have[id] = true; p.f[id] = f; }
		if (p.f[0].rows != p.f[1].rows || p.f[2].rows != p.f[3].rows || p.f[0].cols != p.f[2].cols || p.f[1].cols != p.f[3].cols) return p; p.ok = true; return p;
	}
	if (!cc || fc <= cc) return p; long tot = 0; for (int i = 0; i < cc; ++i) { uint16_t c; if (!r.get(&c, 2) || !c) return p; p.cls.push_back(c); tot += c; } if (tot + cc != fc) return p;
	std::vector<std::vector<Field>> by(cc); for (long i = 0; i < tot; ++i) { Field f; if (!rd_field(r, f)) return p; int id; if (sscanf(f.name.c_str(), "c%d", &id) != 1 || id < 1 || id > cc || (int)by[id - 1].size() >= p.cls[id - 1]) return p; by[id - 1].push_back(f); }
	for (auto& b : by) for (auto& f : b) p.f.push_back(f); p.ok = true; return p;
}
// ---- comparison of what was read with the model ---------------------------------------------------------------------------
static bool tiny(float x) { uint32_t u; memcpy(&u, &x, 4); return !(u & 0x7f800000u); } // zero or denormalised: the library flushes them
static bool tiny(double x) { uint64_t u; memcpy(&u, &x, 8); return !(u & 0x7ff0000000000000ull); }
template<class M> static void same_mtx(const M& m, const Field& f, bool bias, const char* what, double rel = 0) {
	typedef typename M::value_type R; if (m.empty()) sim::fail("content", "%s is empty after a successful read", what);
	if (m.rows() != (vec_len_t)f.rows || m.cols() != (vec_len_t)f.cols + (bias ? 1 : 0) || m.emulatesBiases() != bias || m.bBatchInRow()) sim::fail("content", "%s has %d x %d elements instead of %u x %u", what, (int)m.rows(), (int)m.cols(), f.rows, f.cols);
	for (size_t i = 0; i < f.v.size(); ++i) { const R w = (R)f.v[i], g = m.data()[i]; if (memcmp(&w, &g, sizeof w) && !(std::isnan(w) && std::isnan(g)) && !(tiny(w) && tiny(g)) && !(rel && std::fabs((double)g - (double)w) <= rel * std::numeric_limits<R>::epsilon() * std::fabs((double)w))) sim::fail("content", "%s: element %zu is %.17g instead of %.17g", what, i, (double)g, (double)w); }
	if (bias) for (uint32_t i = 0; i < f.rows; ++i) if (m.data()[f.v.size() + i] != 1) sim::fail("content", "%s: bias of row %u is not one", what, i);
}
template<class R> struct TdOf { typedef inmem_train_data<R> T; };
template<class R> static void same(const math::smatrix<R>& m, const Parsed& p) { same_mtx(m, p.f[0], false, "the matrix"); }
template<class R> static void same(const inmem_train_data<R>& t, const Parsed& p, double rel = 0) { same_mtx(t.X(0), p.f[0], true, "train_x", rel); same_mtx(t.Y(0), p.f[1], false, "train_y", rel); same_mtx(t.X(1), p.f[2], true, "test_x", rel); same_mtx(t.Y(1), p.f[3], false, "test_y", rel); }
template<class R> static void same(seq_data<R>& s, const Parsed& p) {
	struct Peek : seq_data<R> { using seq_data<R>::m_seqStor; }; auto& st = static_cast<Peek&>(s).m_seqStor; if (s.empty()) sim::fail("content", "sequences are missing after a successful read"); auto& c = s.get_class_seq_count(); if (c.size() != p.cls.size() || st.size() != p.cls.size()) sim::fail("content", "%zu classes instead of %zu", c.size(), p.cls.size());
	size_t k = 0; for (size_t i = 0; i < p.cls.size(); ++i) { if (c[i] != p.cls[i] || (int)st[i].size() != p.cls[i]) sim::fail("content", "class %zu has %zu sequences instead of %d", i, st[i].size(), p.cls[i]); for (int j = 0; j < p.cls[i]; ++j) same_mtx(st[i][j], p.f[k++], false, "sequence"); }
}
template<class R> static void wipe(math::smatrix<R>& m) { m.clear(); } template<class R> static void wipe(math::smatrix_deform<R>& m) { m.clear(); } template<class R> static void wipe(seq_data<R>& s) { s.clear(); } template<class R> static void wipe(inmem_train_data<R>&) {}
template<class D> struct is_td : std::false_type {}; template<class R> struct is_td<inmem_train_data<R>> : std::true_type {};
// ---- generation and corruption ---------------------------------------------------------------------------------------------
static std::string gen(Kind k) {
	std::string s; putv<uint32_t>(s, 0x6c746e6eu); putv<uint16_t>(s, 0); std::vector<Field> f; std::vector<int> cls; auto dim = [](int m) { return (uint32_t)sim::rng(1, m); }; auto ty = [] { return (int)sim::rnd(2); };
	if (k == MTX || k == MTXD) f.push_back(mk_field(sim::chance(.5) ? "x" : "a_rather_long_name", dim(12), dim(8), ty()));
	else if (k == TD) { uint32_t n = dim(12), m = dim(8), xw = dim(6), yw = dim(4); f = { mk_field("train_x", n, xw, ty()), mk_field("train_y", n, yw, ty()), mk_field("test_x", m, xw, ty()), mk_field("test_y", m, yw, ty()) }; for (int i = 3; i > 0; --i) std::swap(f[i], f[sim::rnd(i + 1)]); }
	else { int cc = (int)sim::rng(1, 4); for (int i = 0; i < cc; ++i) cls.push_back((int)sim::rng(1, 4)); for (int i = 0; i < cc; ++i) for (int j = 0; j < cls[i]; ++j) { char b[40]; snprintf(b, sizeof b, sim::chance(.5) ? "c%d" : "c%d_seq", i + 1); f.push_back(mk_field(b, dim(6), dim(6), ty())); } for (int i = (int)f.size() - 1; i > 0; --i) std::swap(f[i], f[sim::rnd(i + 1)]); }
	putv<uint16_t>(s, (uint16_t)(f.size() + cls.size())); putv<uint16_t>(s, (uint16_t)cls.size()); for (int c : cls) putv<uint16_t>(s, (uint16_t)c); for (auto& x : f) put_field(s, x); return s;
}
static const char* corrupt(std::string& s, Kind k) {
	static const uint32_t dims[][2] = { { 0, 1 }, { 1, 0 }, { 0x80000000u, 1 }, { 1, 0x80000000u }, { 0xffffffffu, 0xffffffffu }, { 0x7fffffffu, 0x7fffffffu }, { 1, 0x7fffffffu }, { 0x10000, 0x10000 }, { 1073807362u, 2147352580u }, { 1073807362u, 2147352579u }, { 1073872904u, 2147221520u }, { 0x40000000u, 4 }, { 0x20000000u, 8 }, { 0x40000001u, 4 }, { 0x7fffffffu, 2 } };
	auto poke32 = [&](size_t o, uint32_t v) { if (o + 4 <= s.size()) memcpy(&s[o], &v, 4); }; auto poke16 = [&](size_t o, uint16_t v) { if (o + 2 <= s.size()) memcpy(&s[o], &v, 2); };
	switch (sim::rnd(11)) {
	default: return "intact";
	case 1: s.resize((size_t)sim::rnd(s.size())); return "truncated";
	case 2: s.resize(s.size() - 1 - (sim::chance(.5) ? sim::rnd(std::min<size_t>(s.size(), 8)) : 0)); return "end missing";
	case 3: { int n = (int)sim::rng(1, 3); for (int i = 0; i < n; ++i) s[sim::rnd(s.size())] ^= (char)(1 << sim::rnd(8)); return "bits flipped"; }
	case 4: { for (int i = (int)sim::rng(1, 2); i; --i) s[sim::rnd(std::min<size_t>(s.size(), 40))] = (char)sim::rnd(256); return "bytes of the header changed"; }
	case 5: { auto& d = dims[sim::rnd(sizeof dims / sizeof *dims)]; size_t o = 10; if (k == SEQ) { uint16_t cc; memcpy(&cc, &s[8], 2); o += 2 * (size_t)cc; } poke32(o, d[0]); poke32(o + 4, d[1]); return "sizes changed"; }
	case 6: poke16(6, (uint16_t)sim::rnd(sim::chance(.5) ? 8 : 65536)); return "field count changed";
	case 7: poke16(8, (uint16_t)sim::rnd(sim::chance(.5) ? 6 : 65536)); return "class count changed";
	case 8: s.append((size_t)sim::rng(1, 40), (char)sim::rnd(256)); return "followed by other bytes";
	case 9: { size_t o = s.find(k == TD ? "t" : "c", 10); const char* other[] = { "train_x", "train_y", "test_x", "test_y", "", "c1", "c0", "c-1", "c99", "x" }; if (o != std::string::npos && o + 8 < s.size()) { const char* t = other[sim::rnd(10)]; memcpy(&s[o], t, strlen(t) + 1); } return "name changed"; }
	}
}
// one history: a reader object reads files into destinations with faults, then again without
template<class D, Kind K> static void s_bin() {
	global_denormalized_floats_mode(); binfile* b = new binfile; const int n = (int)sim::rng(1, 4); const bool hurt = sim::chance(.6);
	for (int op = 0; op < n; ++op) {
		std::string* img; Parsed* p; const char* how; { sim::Oracle g; img = new std::string(gen(K)); how = sim::chance(.3) ? "intact" : corrupt(*img, K); p = new Parsed(parse(*img, K)); } const bool missing = sim::chance(.05);
		if (sim::keep_op()) {
			{ sim::Oracle g; sim::file_put("f", img->data(), img->size()); } sim::context("file %d: %s, %zu bytes, %s", op, how, img->size(), p->ok ? "valid" : "invalid"); if (p->ok) sim::probe("valid_files"); else sim::probe("invalid_files");
			const auto l0 = sim::live_blocks(); D* d = new D;
			for (int at = 0; at < 2; ++at) {
				const auto f0 = sim::alloc_failures() + sim::io_faults(); if (hurt && !at) { sim::alloc_faults(true); sim::io_faults(true); } typename binfile::ErrorCode ec; bool threw = false;
				try { ec = b->read(missing && !at ? "nosuchfile" : "f", *d); } catch (const std::exception&) { threw = true; } sim::alloc_faults(false); sim::io_faults(false); const bool faulty = sim::alloc_failures() + sim::io_faults() != f0;
				if (threw) sim::fail("error", "an exception left the reader"); if (sim::open_files()) sim::fail("leak", "the file is still open after the read");
				if (ec == binfile::ErrorCode::Success) { if (!p->ok || (missing && !at)) sim::fail("accepted", "an invalid file was read successfully"); sim::Oracle g; same(*d, *p); sim::probe(faulty ? "read_despite_fault" : "read_ok"); }
				else { if (b->get_last_error() != ec) sim::fail("error", "returned error %d, last error %d", (int)ec, (int)b->get_last_error()); if (p->ok && !faulty && !(missing && !at)) sim::fail("rejected", "a valid file was rejected with error %d (%s)", (int)ec, b->get_error_str(ec)); if constexpr (is_td<D>::value) if (!d->empty()) sim::fail("content", "a failed read left data in the data set"); sim::probe("read_failed"); }
				sim::note((uint64_t)ec); sim::state((uint64_t)ec * 64 + img->size() * 4096 + (uint64_t)at); if (at) break; if (ec == binfile::ErrorCode::Success) { if (is_td<D>::value || sim::chance(.5)) break; } wipe(*d);
			}
			delete d; if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated after reading a file", (long long)(sim::live_blocks() - l0));
		}
		sim::Oracle g; delete p; delete img;
	}
	delete b;
}
static void tune_io(sim::Knobs& k) { static const double p[] = { .02, .1, .3 }; k.p_io = p[sim::rnd(3)]; k.max_iofault = 1 + (unsigned)sim::rnd(2); k.p_allocfail = p[sim::rnd(3)]; k.max_allocfail = 1 + (unsigned)sim::rnd(2); k.fail_throwing = true; k.throw_min = 0; if (sim::chance(.4)) k.p_io = 0; else if (sim::chance(.5)) k.p_allocfail = 0; }
#define BIN(n, D, K) static void b_##n() { s_bin<D, K>(); } SIM_SCENARIO(P15, n, b_##n, tune_io, 1)
BIN(matrix_float, math::smatrix<float>, MTX) BIN(matrix_double, math::smatrix<double>, MTX) BIN(matrix_deform, math::smatrix_deform<float>, MTXD) BIN(matrix_deform_double, math::smatrix_deform<double>, MTXD)
BIN(dataset_float, inmem_train_data<float>, TD) BIN(dataset_double, inmem_train_data<double>, TD) BIN(sequences_float, seq_data<float>, SEQ) BIN(sequences_double, seq_data<double>, SEQ)

// ---- P16: JSON files -------------------------------------------------------------------------------------------------------
struct JV { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; double n = 0; std::string s; std::vector<JV> a; std::vector<std::string> k; const JV* get(const char* nm) const { for (size_t i = 0; i < k.size(); ++i) if (k[i] == nm) return &a[i]; return nullptr; } };
struct JP { // a strict parser, the reference for the reader
	const std::string& s; size_t o = 0; bool bad = false, huge = false; void ws() { while (o < s.size() && strchr(" \t\r\n", s[o]) && s[o]) ++o; } char pk() { return o < s.size() ? s[o] : 0; } bool fail() { bad = true; return false; }
	bool lit(const char* l) { size_t n = strlen(l); if (s.compare(o, n, l)) return fail(); o += n; return true; }
	bool str(std::string& out) { ++o; for (;;) { if (o >= s.size()) return fail(); unsigned char c = (unsigned char)s[o++]; if (c == '"') return true; if (c < 0x20) return fail(); if (c == '\\') { if (o >= s.size()) return fail(); char e = s[o++]; static const char in[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t"; const char* q = strchr(in, e); if (!q || !e) return fail(); out += to[q - in]; } else out += (char)c; } }
	bool num(double& d) { size_t b = o; if (pk() == '-') ++o; if (pk() == '0') ++o; else if (isdigit((unsigned char)pk())) while (isdigit((unsigned char)pk())) ++o; else return fail(); if (pk() == '.') { ++o; if (!isdigit((unsigned char)pk())) return fail(); while (isdigit((unsigned char)pk())) ++o; } if (pk() == 'e' || pk() == 'E') { ++o; if (pk() == '+' || pk() == '-') ++o; if (!isdigit((unsigned char)pk())) return fail(); size_t e = o; while (isdigit((unsigned char)pk())) ++o; if (o - e > 2 || atoi(s.c_str() + e) > 18) huge = true; } if (o - b > 60) huge = true; d = strtod(s.substr(b, o - b).c_str(), nullptr); return std::isfinite(d) ? true : fail(); }
	bool val(JV& v) {
		ws(); char c = pk();
		if (c == '{') { v.t = JV::OBJ; ++o; ws(); if (pk() == '}') { ++o; return true; } for (;;) { ws(); if (pk() != '"') return fail(); std::string k; if (!str(k)) return false; ws(); if (pk() != ':') return fail(); ++o; v.k.push_back(k); v.a.emplace_back(); if (!val(v.a.back())) return false; ws(); if (pk() == ',') { ++o; continue; } if (pk() == '}') { ++o; return true; } return fail(); } }
		if (c == '[') { v.t = JV::ARR; ++o; ws(); if (pk() == ']') { ++o; return true; } for (;;) { v.a.emplace_back(); if (!val(v.a.back())) return false; ws(); if (pk() == ',') { ++o; continue; } if (pk() == ']') { ++o; return true; } return fail(); } }
		if (c == '"') { v.t = JV::STR; return str(v.s); } if (c == 't') { v.t = JV::BOOL; return lit("true"); } if (c == 'f') { v.t = JV::BOOL; return lit("false"); } if (c == 'n') return lit("null"); v.t = JV::NUM; return num(v.n);
	}
	bool doc(JV& v) { if (!val(v)) return false; ws(); return o == s.size(); }
};
typedef jsonreader::ErrorCode JE;
struct JParsed { bool huge = false; int ec = 0; std::vector<Field> f; };
static int j_field(const JV& d, const char* nm, int id, Field& f) {
	const JV* v = d.get(nm); if (!v) return (int)JE::NoTrainX + id; const int inv = (int)JE::InvalidTrainX + id; if (v->t != JV::ARR || v->a.empty()) return inv; const bool m = v->a[0].t == JV::ARR; f.cols = m ? (uint32_t)v->a.size() : 1; f.rows = m ? (uint32_t)v->a[0].a.size() : (uint32_t)v->a.size(); if (!f.rows) return inv;
	if (m) for (auto& r : v->a) { if (r.t != JV::ARR || r.a.size() != f.rows) return inv; for (auto& e : r.a) { if (e.t != JV::NUM) return inv; f.v.push_back(e.n); } } else for (auto& e : v->a) { if (e.t != JV::NUM) return inv; f.v.push_back(e.n); } return 0;
}
static JParsed jparse(const std::string& s, bool td) {
	JParsed r; JV d; JP p{ s }; const bool ok = p.doc(d); r.huge = p.huge; if (!ok) { r.ec = (int)JE::FailedToParseJson; return r; } if (d.t != JV::OBJ) { r.ec = (int)JE::RootIsNotAnObject; return r; } static const char* nm[] = { "train_x", "train_y", "test_x", "test_y" };
	for (int i = 0; i < (td ? 4 : 1); ++i) { r.f.emplace_back(); if ((r.ec = j_field(d, nm[i], i, r.f.back()))) return r; }
	if (td && (r.f[0].rows != r.f[1].rows || r.f[2].rows != r.f[3].rows || r.f[0].cols != r.f[2].cols || r.f[1].cols != r.f[3].cols)) r.ec = (int)JE::MismatchingDataLength; return r;
}
static std::string jws() { static const char* w[] = { "", "", "", " ", "\n", "\t ", "\r\n" }; return w[sim::rnd(7)]; }
static std::string jnum() { char b[64]; switch (sim::rnd(6)) { case 0: snprintf(b, sizeof b, "%d", (int)sim::rnd(2001) - 1000); break; case 1: snprintf(b, sizeof b, "%.17g", value(0)); break; case 2: snprintf(b, sizeof b, "%.6f", value(0)); break; case 3: snprintf(b, sizeof b, "%.9e", value(0)); break; case 4: snprintf(b, sizeof b, "%llu", (unsigned long long)(sim::rnd() >> 12)); break; default: snprintf(b, sizeof b, "%.3g", value(1)); } return b; }
static std::string jmtx(int r, int c, const char* odd) { // odd: what one element is replaced with
	const bool vec = c == 1 && sim::chance(.7); const long at = odd ? (long)sim::rnd((uint64_t)r * c) : -1; std::string s = "["; long n = 0; for (int i = 0; i < c; ++i) { if (i) s += "," + jws(); if (!vec) s += "["; const int rr = odd && !*odd && i == c - 1 ? r + 1 : r; for (int j = 0; j < rr; ++j, ++n) s += (j ? "," : "") + jws() + (n == at && *odd ? std::string(odd) : jnum()); if (!vec) s += "]"; } return s + jws() + "]";
}
static std::string jgen(bool td, const char*& how) {
	static const char* junk[] = { "null", "true", "\"text, with [brackets] and \\\"quotes\\\"\"", "{}", "[]", "{\"train_x\":[1,2]}", "-0.5e3", "[[1],[2,3]]" }; static const char* odds[] = { "null", "\"1\"", "[1]", "{}", "true", "" }; static const char* nm[] = { "train_x", "train_y", "test_x", "test_y" };
	const int w = (int)sim::rnd(10), at = (int)sim::rnd(td ? 4 : 1); how = "well formed"; int n = (int)sim::rng(1, 8), m = (int)sim::rng(1, 6), xw = (int)sim::rng(1, 5), yw = (int)sim::rng(1, 3); std::vector<std::string> mem;
	for (int i = 0; i < (td ? 4 : (int)sim::rng(1, 4)); ++i) { int r = i < 2 ? n : m, c = i & 1 ? yw : xw; const char* odd = nullptr; if (i == at) { if (w == 1) { how = "a member missing"; continue; } if (w == 2) { how = "a member of another type"; mem.push_back("\"" + std::string(nm[i]) + "\":" + junk[sim::rnd(8)]); continue; } if (w == 3) { how = "an odd element"; odd = odds[sim::rnd(6)]; } if (w == 4 && td) { how = "sizes differ"; ++(sim::chance(.5) ? r : c); } } mem.push_back("\"" + std::string(nm[i]) + "\"" + jws() + ":" + jws() + jmtx(r, c, odd)); }
	if (sim::chance(.4)) mem.push_back(std::string("\"other\":") + junk[sim::rnd(8)]); if (sim::chance(.1) && w == 0) { how = "a member twice"; mem.push_back("\"" + std::string(nm[at]) + "\":" + jmtx(n, 2, nullptr)); } else for (int i = (int)mem.size() - 1; i > 0; --i) std::swap(mem[i], mem[sim::rnd(i + 1)]);
	std::string s = jws() + "{"; for (size_t i = 0; i < mem.size(); ++i) s += (i ? "," : "") + jws() + mem[i] + jws(); s += "}" + jws(); if (w == 5) { how = "not an object"; return sim::chance(.5) ? "[" + s + "]" : jws() + junk[sim::rnd(8)]; } 
	if (w == 6) { how = "truncated"; s.resize((size_t)sim::rnd(s.size())); } if (w == 7) { how = "characters changed"; for (int i = (int)sim::rng(1, 3); i; --i) s[sim::rnd(s.size())] = (char)(sim::chance(.5) ? "{}[],:\"\\ -+.eE0123456789"[sim::rnd(24)] : (char)(32 + sim::rnd(95))); } if (w == 8) { how = "something follows"; s += junk[sim::rnd(8)]; } return s;
}
template<class R> static void jsame(const math::smatrix<R>& m, const JParsed& p, bool bias) { same_mtx(m, p.f[0], bias, "the matrix", 4); } // decimal text: the last bit depends on the floating-point mode of the build
template<class R> static void jsame(const inmem_train_data<R>& t, const JParsed& p, bool) { Parsed q; q.f = p.f; same(t, q, 4); }
template<class D, bool TDs> static void s_json() {
	global_denormalized_floats_mode(); jsonreader* b = new jsonreader; const int n = (int)sim::rng(1, 4); const bool hurt = sim::chance(.6);
	for (int op = 0; op < n; ++op) {
		std::string* img; JParsed* p; const char* how; { sim::Oracle g; img = new std::string(jgen(TDs, how)); p = new JParsed(jparse(*img, TDs)); while (p->huge) { delete p; *img = jgen(TDs, how); p = new JParsed(jparse(*img, TDs)); } } const bool missing = sim::chance(.05), bias = !TDs && sim::chance(.4); static const size_t bs[] = { 4, 7, 64, 1024, 65536 }; b->m_readBufSize = bs[sim::rnd(5)]; const bool keep = sim::chance(.5);
		if (sim::keep_op()) {
			{ sim::Oracle g; sim::file_put("f", img->data(), img->size()); } sim::context("file %d: %s, %zu bytes, expected result %d", op, how, img->size(), p->ec); sim::probe(p->ec ? "invalid_files" : "valid_files");
			const auto l0 = sim::live_blocks(); D* d = new D;
			for (int at = 0; at < 3; ++at) {
				const bool mis = missing && !at; const auto f0 = sim::alloc_failures() + sim::io_faults(); if (hurt && at < 2) { sim::alloc_faults(true); sim::io_faults(true); } JE ec = JE::Success; bool threw = false;
				try { ec = b->read(mis ? "nosuchfile" : "f", *d, bias); } catch (const std::bad_alloc&) { threw = true; } sim::alloc_faults(false); sim::io_faults(false); const bool faulty = sim::alloc_failures() + sim::io_faults() != f0;
				if (sim::open_files()) sim::fail("leak", "the file is still open after the read");
				if (threw) { if (!faulty) sim::fail("error", "an exception left the reader without cause"); sim::probe("threw"); }
				else if (ec == JE::Success) { if (p->ec || mis) sim::fail("accepted", "an invalid file was read successfully"); sim::Oracle g; jsame(*d, *p, bias); sim::probe(faulty ? "read_despite_fault" : "read_ok"); }
				else {
					if (b->get_last_error() != ec) sim::fail("error", "returned error %d, last error %d", (int)ec, (int)b->get_last_error()); if (!p->ec && !faulty && !mis) sim::fail("rejected", "a valid file was rejected with error %d (%s) at offset %zu: ...%.40s", (int)ec, b->get_error_str(ec), b->get_parse_error_offset(), img->c_str() + std::min(img->size(), b->get_parse_error_offset() < 20 ? 0 : b->get_parse_error_offset() - 20));
					if (!faulty && (int)ec != (mis ? (int)JE::FailedToOpenFile : p->ec)) sim::fail("error", "error %d (%s) reported instead of %d", (int)ec, b->get_error_str(ec), mis ? (int)JE::FailedToOpenFile : p->ec); if constexpr (TDs) if (!d->empty()) sim::fail("content", "a failed read left data in the data set"); sim::probe("read_failed");
				}
				sim::note((uint64_t)ec); sim::state((uint64_t)ec * 64 + img->size() * 4096 + (uint64_t)at); if (TDs && !threw && ec == JE::Success) break; if constexpr (!TDs) { if (!keep) d->clear(); }
			}
			delete d; if (sim::live_blocks() != l0) sim::fail("leak", "%lld blocks stay allocated after reading a file", (long long)(sim::live_blocks() - l0));
		}
		sim::Oracle g; delete p; delete img;
	}
	delete b;
}
static void tune_js(sim::Knobs& k) { tune_io(k); k.fail_malloc = false; } // rapidjson itself does not survive a failed malloc()
#define JSN(n, D, T) static void j_##n() { s_json<D, T>(); } SIM_SCENARIO(P16, n, j_##n, tune_js, 1)
JSN(matrix_float, math::smatrix<float>, false) JSN(matrix_double, math::smatrix<double>, false) JSN(dataset_float, inmem_train_data<float>, true) JSN(dataset_double, inmem_train_data<double>, true)
