// Stand-in for OpenBLAS: straightforward reference kernels, single threaded. Compiled with the same instrumentation as
// the code under test, so each element access is checked against the simulated heap and the race detector.
#include <cstddef>
#include <cmath>
#include <vector>
#include <algorithm>
enum { RowMajor = 101, ColMajor = 102, NoTrans = 111, Trans = 112, Upper = 121, Lower = 122, Left = 141, Right = 142 };
template<class T> static void gemm(int order, int ta, int tb, int M, int N, int K, T alpha, const T* A, int lda, const T* B, int ldb, T beta, T* C, int ldc) {
	if (order == RowMajor) { gemm<T>(ColMajor, tb, ta, N, M, K, alpha, B, ldb, A, lda, beta, C, ldc); return; }
	for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) {
		T s = 0;
		for (int k = 0; k < K; k++) s += (ta == NoTrans ? A[i + (size_t)k * lda] : A[k + (size_t)i * lda]) * (tb == NoTrans ? B[k + (size_t)j * ldb] : B[j + (size_t)k * ldb]);
		T& c = C[i + (size_t)j * ldc]; c = beta == T(0) ? alpha * s : alpha * s + beta * c;
	}
}
template<class T> static void syrk(int, int uplo, int tr, int N, int K, T alpha, const T* A, int lda, T beta, T* C, int ldc) {
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) {
		if (uplo == Upper ? i > j : i < j) continue;
		T s = 0; for (int k = 0; k < K; k++) s += (tr == NoTrans ? A[i + (size_t)k * lda] * A[j + (size_t)k * lda] : A[k + (size_t)i * lda] * A[k + (size_t)j * lda]);
		T& c = C[i + (size_t)j * ldc]; c = beta == T(0) ? alpha * s : alpha * s + beta * c;
	}
}
template<class T> static void symm(int, int side, int uplo, int M, int N, T alpha, const T* A, int lda, const T* B, int ldb, T beta, T* C, int ldc) {
	auto a = [&](int i, int j) { bool sw = uplo == Upper ? i > j : i < j; return sw ? A[j + (size_t)i * lda] : A[i + (size_t)j * lda]; };
	for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) {
		T s = 0; if (side == Left) for (int k = 0; k < M; k++) s += a(i, k) * B[k + (size_t)j * ldb]; else for (int k = 0; k < N; k++) s += B[i + (size_t)k * ldb] * a(k, j);
		T& c = C[i + (size_t)j * ldc]; c = beta == T(0) ? alpha * s : alpha * s + beta * c;
	}
}
template<class T> static void omatcopy(int order, int tr, int rows, int cols, T alpha, const T* A, int lda, T* B, int ldb) {
	if (order == RowMajor) std::swap(rows, cols);
	for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) { T v = alpha * A[i + (size_t)j * lda]; if (tr == NoTrans) B[i + (size_t)j * ldb] = v; else B[j + (size_t)i * ldb] = v; }
}
template<class T> static void imatcopy(int order, int tr, int rows, int cols, T alpha, T* A, int lda, int ldb) {
	if (order == RowMajor) std::swap(rows, cols);
	T* t = new T[(size_t)rows * cols + 1];
	for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) t[i + (size_t)j * rows] = A[i + (size_t)j * lda];
	for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) { T v = alpha * t[i + (size_t)j * rows]; if (tr == NoTrans) A[i + (size_t)j * ldb] = v; else A[j + (size_t)i * ldb] = v; }
	delete[] t;
}
// one-sided Jacobi SVD, column-major, only jobs 'A','S','N','O' that nntl asks for are supported (see gesvd below)
template<class T> static int gesvd(char jobu, char jobvt, int m, int n, T* a, int lda, T* s, T* u, int ldu, T* vt, int ldvt) {
	bool tr = m < n; int M = tr ? n : m, N = tr ? m : n;                // work on a tall M x N matrix
	std::vector<double> W((size_t)M * N), V((size_t)N * N, 0.0);
	for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) W[tr ? j + (size_t)i * M : i + (size_t)j * M] = a[i + (size_t)j * lda];
	for (int i = 0; i < N; i++) V[i + (size_t)i * N] = 1;
	for (int sweep = 0; sweep < 60; sweep++) { double off = 0;
		for (int p = 0; p < N; p++) for (int q = p + 1; q < N; q++) {
			double al = 0, be = 0, ga = 0; for (int i = 0; i < M; i++) { double x = W[i + (size_t)p * M], y = W[i + (size_t)q * M]; al += x * x; be += y * y; ga += x * y; }
			if (ga == 0) continue; off = std::max(off, std::fabs(ga) / (std::sqrt(al * be) + 1e-300));
			double ze = (be - al) / (2 * ga), t = (ze >= 0 ? 1 : -1) / (std::fabs(ze) + std::sqrt(1 + ze * ze)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
			for (int i = 0; i < M; i++) { double x = W[i + (size_t)p * M], y = W[i + (size_t)q * M]; W[i + (size_t)p * M] = c * x - sn * y; W[i + (size_t)q * M] = sn * x + c * y; }
			for (int i = 0; i < N; i++) { double x = V[i + (size_t)p * N], y = V[i + (size_t)q * N]; V[i + (size_t)p * N] = c * x - sn * y; V[i + (size_t)q * N] = sn * x + c * y; }
		}
		if (off < 1e-14) break; }
	std::vector<double> S(N); std::vector<int> o(N); for (int j = 0; j < N; j++) { double x = 0; for (int i = 0; i < M; i++) x += W[i + (size_t)j * M] * W[i + (size_t)j * M]; S[j] = std::sqrt(x); o[j] = j; }
	std::sort(o.begin(), o.end(), [&](int x, int y) { return S[x] > S[y]; });
	auto L = [&](int i, int k) { double d = S[o[k]]; return d > 0 ? W[i + (size_t)o[k] * M] / d : 0.0; };   // M x N orthonormal
	auto Rv = [&](int i, int k) { return V[i + (size_t)o[k] * N]; };
	for (int k = 0; k < N; k++) s[k] = (T)S[o[k]];
	auto U = [&](int i, int k) { return tr ? Rv(i, k) : L(i, k); }; auto VV = [&](int i, int k) { return tr ? L(i, k) : Rv(i, k); };
	if (jobu == 'O') for (int k = 0; k < N; k++) for (int i = 0; i < m; i++) a[i + (size_t)k * lda] = (T)U(i, k);
	else if (jobu == 'S' || jobu == 'A') for (int k = 0; k < N; k++) for (int i = 0; i < m; i++) u[i + (size_t)k * ldu] = (T)U(i, k);
	if (jobvt == 'O') for (int k = 0; k < N; k++) for (int i = 0; i < n; i++) a[k + (size_t)i * lda] = (T)VV(i, k);
	else if (jobvt == 'S' || jobvt == 'A') for (int k = 0; k < N; k++) for (int i = 0; i < n; i++) vt[k + (size_t)i * ldvt] = (T)VV(i, k);
	return 0;
}
extern "C" {
#define DEF(c, T) \
void cblas_##c##gemm(int o, int ta, int tb, int M, int N, int K, T al, const T* A, int lda, const T* B, int ldb, T be, T* C, int ldc) { gemm<T>(o, ta, tb, M, N, K, al, A, lda, B, ldb, be, C, ldc); } \
void cblas_##c##syrk(int o, int u, int t, int N, int K, T al, const T* A, int lda, T be, T* C, int ldc) { syrk<T>(o, u, t, N, K, al, A, lda, be, C, ldc); } \
void cblas_##c##symm(int o, int s, int u, int M, int N, T al, const T* A, int lda, const T* B, int ldb, T be, T* C, int ldc) { symm<T>(o, s, u, M, N, al, A, lda, B, ldb, be, C, ldc); } \
void cblas_##c##axpy(int n, T a, const T* x, int ix, T* y, int iy) { for (int i = 0; i < n; i++) y[(ptrdiff_t)i * iy] += a * x[(ptrdiff_t)i * ix]; } \
T cblas_##c##dot(int n, const T* x, int ix, const T* y, int iy) { T s = 0; for (int i = 0; i < n; i++) s += x[(ptrdiff_t)i * ix] * y[(ptrdiff_t)i * iy]; return s; } \
void cblas_##c##omatcopy(int o, int t, int r, int k, T al, const T* A, int lda, T* B, int ldb) { omatcopy<T>(o, t, r, k, al, A, lda, B, ldb); } \
void cblas_##c##imatcopy(int o, int t, int r, int k, T al, T* A, int lda, int ldb) { imatcopy<T>(o, t, r, k, al, A, lda, ldb); } \
int LAPACKE_##c##gesvd(int, char ju, char jv, int m, int n, T* a, int lda, T* s, T* u, int ldu, T* vt, int ldvt, T*) { return gesvd<T>(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt); }
DEF(s, float) DEF(d, double)
}
