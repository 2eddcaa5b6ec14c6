// Stand-in for the (not installed) Intel MKL: the functions the back end calls, as their documentation
// describes them, with the argument checks of the reference BLAS. What it refuses it counts.
#include <algorithm>
#include <cctype>
#include <cstdio>
#include <cstring>
#include <map>

extern "C" { int mkl_errors = 0; char mkl_error[200]; }
namespace {
void refuse(char const* f, char const* what) { ++mkl_errors; snprintf(mkl_error, sizeof mkl_error, "%s:%s", f, what); }

template <class T> void gemm(char const* name, char const* ta, char const* tb, int const* m, int const* n, int const* k, T const* alpha, T const* a, int const* lda, T const* b, int const* ldb, T const* beta, T* c, int const* ldc)
{
    bool na = std::toupper(*ta) == 'N', nb = std::toupper(*tb) == 'N';
    if (*m < 0 || *n < 0 || *k < 0) return refuse(name, "negative dimension");
    if (*lda < std::max(1, na ? *m : *k)) return refuse(name, "lda");
    if (*ldb < std::max(1, nb ? *k : *n)) return refuse(name, "ldb");
    if (*ldc < std::max(1, *m)) return refuse(name, "ldc");
    for (int j = 0; j < *n; ++j) for (int i = 0; i < *m; ++i) {
        T s = 0; for (int l = 0; l < *k; ++l) s += (na ? a[i + size_t(l) * *lda] : a[l + size_t(i) * *lda]) * (nb ? b[l + size_t(j) * *ldb] : b[j + size_t(l) * *ldb]);
        T& x = c[i + size_t(j) * *ldc]; x = *alpha * s + (*beta == 0 ? 0 : *beta * x);
    }
}
/// C (m x n) = alpha A B + beta C, A m x k in compressed rows, one-based and column-major for 'F'
template <class T> void csrmm(char const* name, char const* t, int const* m, int const* n, int const* k, T const* alpha, char const* d, T const* val, int const* ind, int const* pb, int const* pe, T const* b, int const* ldb, T const* beta, T* c, int const* ldc)
{
    if (std::toupper(*t) != 'N' || std::toupper(d[0]) != 'G' || (d[3] != 'F' && d[3] != 'C')) return refuse(name, "not modelled");
    if (*m < 0 || *n < 0 || *k < 0) return refuse(name, "negative dimension");
    bool f = d[3] == 'F'; int base = f;
    if (f ? *ldb < *k : *ldb < *n) return refuse(name, "ldb");
    if (f ? *ldc < *m : *ldc < *n) return refuse(name, "ldc");
    for (int i = 0; i < *m; ++i) for (int e = pb[i] - pb[0]; e < pe[i] - pb[0]; ++e) if (ind[e] < base || ind[e] >= *k + base) return refuse(name, "index");
    for (int i = 0; i < *m; ++i) for (int j = 0; j < *n; ++j) {
        T s = 0; for (int e = pb[i] - pb[0]; e < pe[i] - pb[0]; ++e) { int l = ind[e] - base; s += val[e] * (f ? b[l + size_t(j) * *ldb] : b[j + size_t(l) * *ldb]); }
        T& x = f ? c[i + size_t(j) * *ldc] : c[j + size_t(i) * *ldc]; x = *alpha * s + (*beta == 0 ? 0 : *beta * x);
    }
}
/// C (m x k) = A (m x n) B (n x k), all in one-based compressed rows
template <class T> void csrmultcsr(char const* name, char const* t, int const* request, int const* sort, int const* m, int const* n, int const* k, T* a, int* ja, int* ia, T* b, int* jb, int* ib, T* c, int* jc, int* ic, int const* nzmax, int* info)
{
    if (std::toupper(*t) != 'N') return refuse(name, "not modelled");
    auto valid = [](int rows, int cols, int const* j, int const* i) {
        if (i[0] != 1) return false;
        for (int r = 0; r < rows; ++r) { if (i[r + 1] < i[r]) return false; for (int e = i[r] - 1; e < i[r + 1] - 1; ++e) if (j[e] < 1 || j[e] > cols) return false; }
        return true;
    };
    if (!valid(*m, *n, ja, ia)) return refuse(name, "A is no m x n matrix");
    if (!valid(*n, *k, jb, ib)) return refuse(name, "B is no n x k matrix");
    int at = 0; *info = 0;
    for (int r = 0; r < *m; ++r) {
        std::map<int, T> row;
        for (int e = ia[r] - 1; e < ia[r + 1] - 1; ++e) for (int x = ib[ja[e] - 1] - 1; x < ib[ja[e]] - 1; ++x) row[jb[x]] += a[e] * b[x];
        if (*request == 0 && at + int(row.size()) > *nzmax) { *info = r + 1; return; }
        if (*request == 2 && ic[r] != at + 1) return refuse(name, "ic is not that of request 1");
        if (*request != 2) ic[r] = at + 1;
        if (*request != 1) { int p = at, step = 1; if (*sort == 7) { p = at + int(row.size()) - 1; step = -1; } for (auto& x : row) { jc[p] = x.first; c[p] = x.second; p += step; } }
        at += int(row.size());
    }
    if (*request == 2 && ic[*m] != at + 1) return refuse(name, "ic is not that of request 1");
    ic[*m] = at + 1;
}
}
extern "C" {
#define GEMM(f, T) void f(char const* ta, char const* tb, int const* m, int const* n, int const* k, T const* al, T const* a, int const* lda, T const* b, int const* ldb, T const* be, T* c, int const* ldc) { gemm<T>(#f, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
GEMM(dgemm_, double) GEMM(sgemm_, float)
#define CSRMM(f, T) void f(char const* t, int const* m, int const* n, int const* k, T const* al, char const* d, T const* v, int const* i, int const* pb, int const* pe, T const* b, int const* ldb, T const* be, T* c, int const* ldc) { csrmm<T>(#f, t, m, n, k, al, d, v, i, pb, pe, b, ldb, be, c, ldc); }
CSRMM(mkl_dcsrmm, double) CSRMM(mkl_scsrmm, float)
#define CSRMULT(f, T) void f(char const* t, int const* rq, int const* s, int const* m, int const* n, int const* k, T* a, int* ja, int* ia, T* b, int* jb, int* ib, T* c, int* jc, int* ic, int const* nz, int* info) { csrmultcsr<T>(#f, t, rq, s, m, n, k, a, ja, ia, b, jb, ib, c, jc, ic, nz, info); }
CSRMULT(mkl_dcsrmultcsr, double) CSRMULT(mkl_scsrmultcsr, float)
}
