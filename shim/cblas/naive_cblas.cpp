// Plain, instrumented CBLAS for the sanitizer builds: OpenBLAS is not instrumented, so wrong sizes or
// strides handed to it would go unseen by AddressSanitizer.  Same semantics as the reference BLAS
// (beta == 0 means the output is not read).
#include <cblas.h>
#include <cstdlib>
#include <cstdio>
#define IDX(l, i, j, ld) ((l) == CblasRowMajor ? (size_t)(i) * (ld) + (j) : (size_t)(j) * (ld) + (i))
template <class T> static void gemm(int L, int ta, int tb, int m, int n, int k, T al, const T* a, int lda, const T* b, int ldb, T be, T* c, int ldc) {
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
        T s = 0;
        for (int p = 0; p < k; ++p)
            s += (ta == CblasNoTrans ? a[IDX(L, i, p, lda)] : a[IDX(L, p, i, lda)]) * (tb == CblasNoTrans ? b[IDX(L, p, j, ldb)] : b[IDX(L, j, p, ldb)]);
        T& o = c[IDX(L, i, j, ldc)];
        o = be == T(0) ? al * s : al * s + be * o;
    }
}
template <class T> static void gemv(int L, int ta, int m, int n, T al, const T* a, int lda, const T* x, int ix, T be, T* y, int iy) {
    int ny = ta == CblasNoTrans ? m : n, nx = ta == CblasNoTrans ? n : m;
    for (int i = 0; i < ny; ++i) {
        T s = 0;
        for (int p = 0; p < nx; ++p) s += (ta == CblasNoTrans ? a[IDX(L, i, p, lda)] : a[IDX(L, p, i, lda)]) * x[(long)p * ix];
        T& o = y[(long)i * iy];
        o = be == T(0) ? al * s : al * s + be * o;
    }
}
extern "C" {
void cblas_dgemm(CBLAS_ORDER L, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, double al, const double* a, blasint lda, const double* b, blasint ldb, double be, double* c, blasint ldc) { gemm<double>(L, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_sgemm(CBLAS_ORDER L, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, float al, const float* a, blasint lda, const float* b, blasint ldb, float be, float* c, blasint ldc) { gemm<float>(L, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_dgemv(CBLAS_ORDER L, CBLAS_TRANSPOSE ta, blasint m, blasint n, double al, const double* a, blasint lda, const double* x, blasint ix, double be, double* y, blasint iy) { gemv<double>(L, ta, m, n, al, a, lda, x, ix, be, y, iy); }
void cblas_sgemv(CBLAS_ORDER L, CBLAS_TRANSPOSE ta, blasint m, blasint n, float al, const float* a, blasint lda, const float* x, blasint ix, float be, float* y, blasint iy) { gemv<float>(L, ta, m, n, al, a, lda, x, ix, be, y, iy); }
double cblas_ddot(blasint n, const double* x, blasint ix, const double* y, blasint iy) { double s = 0; for (long i = 0; i < n; ++i) s += x[i * ix] * y[i * iy]; return s; }
float cblas_sdot(blasint n, const float* x, blasint ix, const float* y, blasint iy) { float s = 0; for (long i = 0; i < n; ++i) s += x[i * ix] * y[i * iy]; return s; }
void cblas_dcopy(blasint n, const double* x, blasint ix, double* y, blasint iy) { for (long i = 0; i < n; ++i) y[i * iy] = x[i * ix]; }
void cblas_scopy(blasint n, const float* x, blasint ix, float* y, blasint iy) { for (long i = 0; i < n; ++i) y[i * iy] = x[i * ix]; }
void cblas_daxpy(blasint n, double al, const double* x, blasint ix, double* y, blasint iy) { for (long i = 0; i < n; ++i) y[i * iy] += al * x[i * ix]; }
void cblas_dscal(blasint n, double al, double* x, blasint ix) { for (long i = 0; i < n; ++i) x[i * ix] *= al; }
void cblas_saxpy(blasint n, float al, const float* x, blasint ix, float* y, blasint iy) { for (long i = 0; i < n; ++i) y[i * iy] += al * x[i * ix]; }
void cblas_sscal(blasint n, float al, float* x, blasint ix) { for (long i = 0; i < n; ++i) x[i * ix] *= al; }
double cblas_dnrm2(blasint n, const double* x, blasint ix) { double s = 0; for (long i = 0; i < n; ++i) s += x[i * ix] * x[i * ix]; return __builtin_sqrt(s); }
double cblas_dasum(blasint n, const double* x, blasint ix) { double s = 0; for (long i = 0; i < n; ++i) s += __builtin_fabs(x[i * ix]); return s; }
void cblas_dger(CBLAS_ORDER L, blasint m, blasint n, double al, const double* x, blasint ix, const double* y, blasint iy, double* a, blasint lda) { for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) a[IDX(L, i, j, lda)] += al * x[i * ix] * y[j * iy]; }
void cblas_sger(CBLAS_ORDER L, blasint m, blasint n, float al, const float* x, blasint ix, const float* y, blasint iy, float* a, blasint lda) { for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) a[IDX(L, i, j, lda)] += al * x[i * ix] * y[j * iy]; }
}
