/* LAPACK/BLAS is not installed here: plain partial-pivoting LU under the names the
   Fortran block smoothers call. */
#include <math.h>
void dgetrf_(const int* m, const int* np, double* A, const int* lda, int* ipiv, int* info)
{
    int n = *np, L = *lda;
    *info = 0;
    for (int c = 0; c < n; ++c) {
        int p = c;
        for (int r = c + 1; r < n; ++r)
            if (fabs(A[r + c * L]) > fabs(A[p + c * L])) p = r;
        ipiv[c] = p + 1;
        if (A[p + c * L] == 0.0) { if (!*info) *info = c + 1; continue; }
        if (p != c)
            for (int k = 0; k < n; ++k) { double t = A[c + k * L]; A[c + k * L] = A[p + k * L]; A[p + k * L] = t; }
        for (int r = c + 1; r < n; ++r) {
            double f = A[r + c * L] /= A[c + c * L];
            for (int k = c + 1; k < n; ++k) A[r + k * L] -= f * A[c + k * L];
        }
    }
    (void)m;
}
void dgetrs_(const char* tr, const int* np, const int* nrhs, const double* A, const int* lda, const int* ipiv,
             double* B, const int* ldb, int* info)
{
    int n = *np, L = *lda;
    *info = 0;
    for (int q = 0; q < *nrhs; ++q) {
        double* b = B + q * *ldb;
        for (int c = 0; c < n; ++c) { int p = ipiv[c] - 1; double t = b[c]; b[c] = b[p]; b[p] = t; }
        for (int c = 0; c < n; ++c)
            for (int r = c + 1; r < n; ++r) b[r] -= A[r + c * L] * b[c];
        for (int c = n - 1; c >= 0; --c) {
            b[c] /= A[c + c * L];
            for (int r = 0; r < c; ++r) b[r] -= A[r + c * L] * b[c];
        }
    }
    (void)tr;
}
void dgesv_(const int* n, const int* nrhs, double* A, const int* lda, int* ipiv, double* B, const int* ldb, int* info)
{
    dgetrf_(n, n, A, lda, ipiv, info);
    if (!*info) dgetrs_("N", n, nrhs, A, lda, ipiv, B, ldb, info);
}
void dcopy_(const int* n, const double* x, const int* ix, double* y, const int* iy)
{
    for (int i = 0; i < *n; ++i) y[i * *iy] = x[i * *ix];
}
