// Stand-in for the part of MATLAB's libmat/libmx the library uses: variables in program memory (the simulator's heap, so that
// allocations fail, leaks and stray accesses are seen) and files that are logs of records (the simulator's disk, so that writes
// and reads fail). A put is an appended record, the newest record of a name counts, a torn record at the end counts for nothing.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <xmmintrin.h>
enum mxClassID { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS };
enum mxComplexity { mxREAL = 0, mxCOMPLEX };
typedef size_t mwSize; typedef size_t mwIndex;
struct mxArray { mxClassID cls; size_t m, n; void* data; int nf; char** names; mxArray** vals; mxArray* in; };
struct MATFile { FILE* f; bool w, broken; char* img; size_t len; };
namespace sim { [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3))); }
namespace simmat {
	inline bool changes_fp = false; // MATLAB may change the floating point mode of the calling thread
	inline void fp() { if (changes_fp) _mm_setcsr(0x1F80); }
	inline size_t elsz(int c) { switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; default: return 0; } }
	inline bool name_ok(const char* s) { auto al = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }; if (!s || !al(*s)) return false; size_t l = strlen(s); if (l > 63) return false; for (const char* p = s; *p; ++p) if (!al(*p) && !(*p >= '0' && *p <= '9') && *p != '_') return false; return true; }
	inline mxArray* fresh(mxClassID c, size_t m, size_t n) { mxArray* a = (mxArray*)calloc(1, sizeof(mxArray)); if (!a) return nullptr; a->cls = c; a->m = m; a->n = n; if (c != mxSTRUCT_CLASS && m * n) { a->data = calloc(m * n, elsz(c)); if (!a->data) { free(a); return nullptr; } } return a; }
	// records
	struct Buf { char* p; size_t n, cap; bool ok; void put(const void* d, size_t k) { if (!ok) return; if (n + k > cap) { size_t c = (n + k) * 2 + 64; char* q = (char*)realloc(p, c); if (!q) { ok = false; return; } p = q; cap = c; } memcpy(p + n, d, k); n += k; } void u(uint64_t v) { put(&v, 8); } void s(const char* t) { size_t l = strlen(t); u(l); put(t, l); } };
	inline void enc(Buf& b, const mxArray* a) { b.u(a->cls); b.u(a->m); b.u(a->n); if (a->cls != mxSTRUCT_CLASS) b.put(a->data, a->m * a->n * elsz(a->cls)); else { b.u(a->nf); for (int i = 0; i < a->nf; ++i) { b.s(a->names[i]); b.u(a->vals[i] != nullptr); if (a->vals[i]) enc(b, a->vals[i]); } } }
	struct Cur { const char* p; size_t n; bool ok; void get(void* d, size_t k) { if (!ok || k > n) { ok = false; memset(d, 0, k); return; } memcpy(d, p, k); p += k; n -= k; } uint64_t u() { uint64_t v; get(&v, 8); return v; } };
}
inline bool mclmcrInitialize() { simmat::fp(); return true; }
inline void mxDestroyArray(mxArray* a) { simmat::fp(); if (!a) return; if (a->in) { for (int i = 0; i < a->in->nf; ++i) if (a->in->vals[i] == a) a->in->vals[i] = nullptr; } for (int i = 0; i < a->nf; ++i) { if (a->vals[i]) { a->vals[i]->in = nullptr; mxDestroyArray(a->vals[i]); } free(a->names[i]); } free(a->names); free(a->vals); free(a->data); free(a); }
inline mxArray* mxCreateNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity) { simmat::fp(); if (!simmat::elsz(c)) sim::fail("matlab-misuse", "numeric matrix of class %d", c); return simmat::fresh(c, m, n); }
inline mxArray* mxCreateLogicalMatrix(size_t m, size_t n) { simmat::fp(); return simmat::fresh(mxLOGICAL_CLASS, m, n); }
inline mxArray* mxCreateStructMatrix(size_t m, size_t n, int nf, const char**) { simmat::fp(); if (nf) sim::fail("matlab-misuse", "struct with %d fields", nf); return simmat::fresh(mxSTRUCT_CLASS, m, n); }
inline size_t mxGetM(const mxArray* a) { return a->m; }
inline size_t mxGetN(const mxArray* a) { return a->n; }
inline mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
inline void* mxGetData(const mxArray* a) { return a->data; }
inline bool mxIsStruct(const mxArray* a) { return a->cls == mxSTRUCT_CLASS; }
inline bool mxIsLogical(const mxArray* a) { return a->cls == mxLOGICAL_CLASS; }
inline bool mxIsNumeric(const mxArray* a) { return a->cls >= mxDOUBLE_CLASS; }
inline int mxGetFieldNumber(const mxArray* a, const char* s) { if (!mxIsStruct(a)) return -1; for (int i = 0; i < a->nf; ++i) if (!strcmp(a->names[i], s)) return i; return -1; }
inline mxArray* mxGetFieldByNumber(const mxArray* a, size_t i, int f) { return i || f < 0 || f >= a->nf ? nullptr : a->vals[f]; }
inline mxArray* mxGetField(const mxArray* a, size_t i, const char* s) { return mxGetFieldByNumber(a, i, mxGetFieldNumber(a, s)); }
inline int mxAddField(mxArray* a, const char* s) {
	simmat::fp(); if (!mxIsStruct(a) || !simmat::name_ok(s)) return -1; int k = mxGetFieldNumber(a, s); if (k >= 0) return k; char* nm = (char*)malloc(strlen(s) + 1); if (!nm) return -1; strcpy(nm, s);
	char** q = (char**)realloc(a->names, sizeof(char*) * (a->nf + 1)); if (!q) { free(nm); return -1; } a->names = q; mxArray** v = (mxArray**)realloc(a->vals, sizeof(mxArray*) * (a->nf + 1)); if (!v) { free(nm); return -1; } a->vals = v; a->names[a->nf] = nm; a->vals[a->nf] = nullptr; return a->nf++;
}
inline void mxSetFieldByNumber(mxArray* a, size_t i, int f, mxArray* v) {
	simmat::fp(); if (!mxIsStruct(a) || i || f < 0 || f >= a->nf) sim::fail("matlab-misuse", "field %d of a variable with %d fields is set", f, a->nf); if (v && v->in && (v->in != a || a->vals[f] != v)) sim::fail("matlab-misuse", "a variable becomes part of a second structure");
	for (mxArray* p = a; p; p = p->in) if (p == v) sim::fail("matlab-misuse", "a structure becomes part of itself"); a->vals[f] = v; if (v) v->in = a;
}
inline mxArray* mxDuplicateArray(const mxArray* a) {
	simmat::fp(); mxArray* r = simmat::fresh(a->cls, a->m, a->n); if (!r) return nullptr; if (a->data && r->data) memcpy(r->data, a->data, a->m * a->n * simmat::elsz(a->cls));
	for (int i = 0; i < a->nf; ++i) { int x = mxAddField(r, a->names[i]); mxArray* v = x < 0 || !a->vals[i] ? nullptr : mxDuplicateArray(a->vals[i]); if (x < 0 || (a->vals[i] && !v)) { mxDestroyArray(r); return nullptr; } if (v) mxSetFieldByNumber(r, 0, x, v); } return r;
}
inline MATFile* matOpen(const char* name, const char* mode) {
	simmat::fp(); MATFile* f = (MATFile*)calloc(1, sizeof(MATFile)); if (!f) return nullptr; f->w = *mode != 'r';
	if (*mode != 'w') { // read all
		FILE* h = fopen(name, "rb"); if (!h) { free(f); return nullptr; } bool bad = false; simmat::Buf b{ nullptr, 0, 0, true }; char* t = (char*)malloc(512); if (!t) bad = true; while (!bad) { size_t k = fread(t, 1, 512, h); b.put(t, k); if (ferror(h) || !b.ok) bad = true; if (k < 512) break; } free(t); long sz = bad || fseek(h, 0, SEEK_END) ? -1 : ftell(h); if (sz < 0 || (size_t)sz != b.n) bad = true; fclose(h);
		if (!bad && (b.n < 8 || memcmp(b.p, "SIMMAT\n", 8))) bad = true; if (bad) { free(b.p); free(f); return nullptr; } f->img = b.p; f->len = b.n;
		size_t o = 8; while (o + 8 <= b.n) { uint64_t l; memcpy(&l, b.p + o, 8); if (l > b.n - o - 8) break; o += 8 + l; } f->len = o; // a torn record is not there
	}
	if (f->w) { f->f = fopen(name, "wb"); if (!f->f || fwrite(f->img ? f->img : "SIMMAT\n", 1, f->img ? f->len : 8, f->f) != (f->img ? f->len : 8)) { if (f->f) fclose(f->f); free(f->img); free(f); return nullptr; } if (!f->img) { f->img = (char*)malloc(8); if (!f->img) { fclose(f->f); free(f); return nullptr; } memcpy(f->img, "SIMMAT\n", 8); f->len = 8; } }
	return f;
}
inline int matClose(MATFile* f) { simmat::fp(); int r = 0; if (f->f && fclose(f->f)) r = -1; free(f->img); free(f); return r; }
inline int matPutVariable(MATFile* f, const char* s, const mxArray* a) {
	simmat::fp(); if (!f->w || f->broken || !simmat::name_ok(s)) return 1; simmat::Buf b{ nullptr, 0, 0, true }; b.u(0); b.s(s); simmat::enc(b, a); if (!b.ok) { free(b.p); return 1; } uint64_t l = b.n - 8; memcpy(b.p, &l, 8);
	char* q = (char*)realloc(f->img, f->len + b.n); if (!q) { free(b.p); return 1; } f->img = q; memcpy(f->img + f->len, b.p, b.n);
	if (fwrite(b.p, 1, b.n, f->f) != b.n) { f->broken = true; free(b.p); return 1; } f->len += b.n; free(b.p); return 0;
}
namespace simmat {
	inline mxArray* dec(Cur& c) {
		mxClassID k = (mxClassID)c.u(); size_t m = c.u(), n = c.u(); if (!c.ok || m > 100000 || n > 100000) { c.ok = false; return nullptr; } mxArray* a = fresh(k, m, n); if (!a) { c.ok = false; return nullptr; }
		if (k != mxSTRUCT_CLASS) { if (m * n) c.get(a->data, m * n * elsz(k)); } else for (uint64_t i = 0, nf = c.u(); i < nf && c.ok; ++i) { uint64_t l = c.u(); char nm[64] = { 0 }; if (l > 63) { c.ok = false; break; } c.get(nm, l); bool has = c.u() != 0; int x = c.ok ? mxAddField(a, nm) : -1; if (x < 0) { c.ok = false; break; } if (has) { mxArray* v = dec(c); if (!v) { c.ok = false; break; } mxSetFieldByNumber(a, 0, x, v); } }
		if (!c.ok) { mxDestroyArray(a); return nullptr; } return a;
	}
	inline mxArray* find(const char* img, size_t len, const char* s) { const char* best = nullptr; size_t bl = 0, o = 8; while (o + 8 <= len) { uint64_t l, sl; memcpy(&l, img + o, 8); if (l > len - o - 8 || l < 8) break; memcpy(&sl, img + o + 8, 8); if (sl + 8 <= l && sl == strlen(s) && !memcmp(img + o + 16, s, sl)) { best = img + o + 16 + sl; bl = l - 8 - sl; } o += 8 + l; } if (!best) return nullptr; Cur c{ best, bl, true }; return dec(c); }
}
inline mxArray* matGetVariable(MATFile* f, const char* s) { simmat::fp(); return simmat::find(f->img, f->len, s); }
namespace std { namespace experimental { namespace filesystem { inline bool exists(const char* n) { FILE* f = fopen(n, "rb"); if (f) fclose(f); return f != nullptr; } } } }
