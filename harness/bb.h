// Everything of BlasBooster plus the boring reference model shared by the harnesses.
#pragma once

#include <BlasBooster/Core/AllMatrixTypes.h>
#include "mc.h"

#include <array>
#include <cmath>
#include <complex>
#include <memory>
#include <limits>
#include <type_traits>

namespace bb {

using namespace BlasBooster;

typedef Parameter<size_t, ColumnMajor> CM;
typedef Parameter<size_t, RowMajor> RM;
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> SubCM;
typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> SubRM;

template <class T, class P = CM> using D = Matrix<Dense, T, P>;
template <class T, class P = CM> using S = Matrix<Sparse, T, P>;
typedef Matrix<Zero> Z;
typedef MultipleMatrix<S<double>, S<float>> MSS;
typedef MultipleMatrix<S<double>, D<float>> MSD;

/// The reference model: a table of doubles.
struct Ref
{
    size_t r = 0, c = 0;
    std::vector<double> v;   // row by row
    Ref() {}
    Ref(size_t r, size_t c, double x = 0.0) : r(r), c(c), v(r * c, x) {}
    double& operator()(size_t i, size_t j) { return v.at(i * c + j); }
    double operator()(size_t i, size_t j) const { return v.at(i * c + j); }
    bool operator==(Ref const& o) const { return r == o.r && c == o.c && v == o.v; }
    bool operator!=(Ref const& o) const { return !(*this == o); }
    Ref t() const { Ref x(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) x(j, i) = (*this)(i, j); return x; }
    size_t nnz() const { size_t n = 0; for (double x : v) n += x != 0.0; return n; }
};

inline Ref add(Ref const& a, Ref const& b, double s = 1.0)
{
    Ref x(a.r, a.c);
    for (size_t i = 0; i < a.v.size(); ++i) x.v[i] = a.v[i] + s * b.v[i];
    return x;
}

inline Ref mul(Ref const& a, Ref const& b)
{
    Ref x(a.r, b.c);
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) {
        double s = 0.0;
        for (size_t k = 0; k < a.c; ++k) s += a(i, k) * b(k, j);
        x(i, j) = s;
    }
    return x;
}

inline Ref round_to_float(Ref a) { for (double& x : a.v) x = static_cast<float>(x); return a; }

inline std::string str(Ref const& a)
{
    std::ostringstream o; o.precision(17);
    o << a.r << "x" << a.c << "[";
    for (size_t i = 0; i < a.r; ++i) { o << (i ? "; " : ""); for (size_t j = 0; j < a.c; ++j) o << (j ? " " : "") << a(i, j); }
    o << "]";
    return o.str();
}

inline mc::Hash hash(Ref const& a) { mc::Hash h; h(a.r)(a.c)(a.v); return h; }

/// distinct, small, exactly representable, sign-mixed
inline double code(size_t i, size_t j) { double x = double(1 + i * 7 + j * 3 + (i * j) % 5); return ((i + 2 * j) % 3 == 1) ? -x : x; }
/// distinct for every position of a matrix up to 4000 x 4000
inline double poscode(size_t i, size_t j) { return double(i * 4099 + j + 1); }

template <class F> Ref make(size_t r, size_t c, F f) { Ref a(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) a(i, j) = f(i, j); return a; }

// ---------------------------------------------------------------- building

template <class T, class P = CM> D<T, P> dense(Ref const& a)
{
    D<T, P> m(a.r, a.c);
    T* p = m.getDataPointer();
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j)
        p[std::is_same<typename P::orientation, ColumnMajor>::value ? i + j * a.r : i * a.c + j] = static_cast<T>(a(i, j));
    return m;
}

/// canonical compressed storage, written through the documented arrays only.
/// The storage cannot be allocated for zero elements through the parameter constructor (0 means "full"),
/// so an empty one is converted from a dense zero matrix, as a user has to do.
template <class T, class P = CM> S<T, P> sparse(Ref const& a)
{
    size_t n = a.nnz();
    if (n == 0) return S<T, P>(dense<T, P>(a));
    S<T, P> m(a.r, a.c, n);
    bool cm = std::is_same<typename P::orientation, ColumnMajor>::value;
    size_t pos = 0, outer = cm ? a.c : a.r, inner = cm ? a.r : a.c;
    for (size_t o = 0; o < outer; ++o) {
        m.beginOffset()[o] = pos;
        for (size_t k = 0; k < inner; ++k) {
            double x = cm ? a(k, o) : a(o, k);
            if (x == 0.0) continue;
            m.begin()[pos] = static_cast<T>(x);
            m.beginKey()[pos] = k;
            ++pos;
        }
    }
    m.beginOffset()[outer] = pos;
    return m;
}

// ---------------------------------------------------------------- reading back

template <class T, class P> Ref ref(Matrix<Dense, T, P> const& m)
{
    Ref a(m.getNbRows(), m.getNbColumns());
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) a(i, j) = m(i, j);
    return a;
}

/// empty string if the storage is canonical compressed sparse storage
template <class T, class P> std::string canonical(Matrix<Sparse, T, P> const& m)
{
    bool cm = std::is_same<typename P::dimension, Dimension<VariableSize, ColumnMajor>>::value;
    size_t outer = cm ? m.getNbColumns() : m.getNbRows(), inner = cm ? m.getNbRows() : m.getNbColumns();
    std::ostringstream o;
    if (m.sizeOffset() != outer + 1) { o << "sizeOffset " << m.sizeOffset() << " instead of " << outer + 1; return o.str(); }
    if (m.beginOffset()[0] != 0) { o << "first offset is " << m.beginOffset()[0]; return o.str(); }
    for (size_t k = 0; k < outer; ++k)
        if (m.beginOffset()[k + 1] < m.beginOffset()[k] || m.beginOffset()[k + 1] > m.nnz()) { o << "offset " << k + 1 << " is " << m.beginOffset()[k + 1] << " (nnz " << m.nnz() << ")"; return o.str(); }
    if (m.beginOffset()[outer] != m.nnz()) { o << "nnz() is " << m.nnz() << " but the offsets cover " << m.beginOffset()[outer]; return o.str(); }
    if (size_t(m.end() - m.begin()) != m.nnz() || size_t(m.endKey() - m.beginKey()) != m.nnz()) return "value/key array length differs from nnz()";
    for (size_t k = 0; k < outer; ++k)
        for (size_t e = m.beginOffset()[k]; e < m.beginOffset()[k + 1]; ++e) {
            if (m.beginKey()[e] >= inner) { o << "key " << m.beginKey()[e] << " out of range"; return o.str(); }
            if (e > m.beginOffset()[k] && m.beginKey()[e] <= m.beginKey()[e - 1]) { o << "keys not increasing in slice " << k; return o.str(); }
        }
    return "";
}

/// reads what the offsets describe (tolerates an over-long tail)
template <class T, class P> Ref ref(Matrix<Sparse, T, P> const& m)
{
    bool cm = std::is_same<typename P::dimension, Dimension<VariableSize, ColumnMajor>>::value;
    Ref a(m.getNbRows(), m.getNbColumns());
    size_t outer = cm ? a.c : a.r;
    for (size_t o = 0; o < outer && o + 1 < m.sizeOffset(); ++o)
        for (size_t e = m.beginOffset()[o]; e < m.beginOffset()[o + 1] && e < m.nnz(); ++e) {
            size_t k = m.beginKey()[e];
            if (k >= (cm ? a.r : a.c)) continue;
            (cm ? a(k, o) : a(o, k)) += m.begin()[e];
        }
    return a;
}

template <class P> Ref ref(Matrix<Zero, NullType, P> const& m) { return Ref(m.getNbRows(), m.getNbColumns()); }

template <class X1, class X2> Ref ref(MultipleMatrix<X1, X2> const& m) { return add(ref(m.getMatrix1()), ref(m.getMatrix2())); }

template <class X> std::shared_ptr<X> cast(DynamicMatrix const& m) { return std::static_pointer_cast<X>(m); }

inline Ref ref(DynamicMatrix const& m)
{
    switch (m->getTypeIndex()) {
    case 0: return ref(*cast<Z>(m));
    case 1: return ref(*cast<S<float>>(m));
    case 2: return ref(*cast<D<float>>(m));
    case 3: return ref(*cast<S<double>>(m));
    case 4: return ref(*cast<MSS>(m));
    case 5: return ref(*cast<MSD>(m));
    case 6: return ref(*cast<D<double>>(m));
    }
    throw std::runtime_error("unknown dynamic type index");
}

inline std::string canonical(DynamicMatrix const& m)
{
    switch (m->getTypeIndex()) {
    case 1: return canonical(*cast<S<float>>(m));
    case 3: return canonical(*cast<S<double>>(m));
    case 4: { std::string s = canonical(cast<MSS>(m)->getMatrix1()); return s.empty() ? canonical(cast<MSS>(m)->getMatrix2()) : s; }
    case 5: return canonical(cast<MSD>(m)->getMatrix1());
    }
    return "";
}

inline char const* const dyn_names[] = { "Zero", "Sparse<float>", "Dense<float>", "Sparse<double>", "Multi<SD,SF>", "Multi<SD,DF>", "Dense<double>" };

/// matrix of the given dynamic type with exactly the value a (for Multi: split over both parts)
inline DynamicMatrix dynamic(int type, Ref const& a)
{
    auto part = [&](bool first) {
        Ref x(a.r, a.c);
        for (size_t i = 0; i < a.v.size(); ++i) {
            // element i lives in part 1, part 2 or (if large enough to split exactly) both
            double p = a.v[i];
            if (i % 3 == 0) x.v[i] = first ? p : 0.0;
            else if (i % 3 == 1) x.v[i] = first ? 0.0 : p;
            else x.v[i] = p == 0.0 ? 0.0 : (first ? p + 16.0 : -16.0);
        }
        return x;
    };
    switch (type) {
    case 0: return DynamicMatrix(new Z(a.r, a.c));
    case 1: return DynamicMatrix(new S<float>(sparse<float>(a)));
    case 2: return DynamicMatrix(new D<float>(dense<float>(a)));
    case 3: return DynamicMatrix(new S<double>(sparse<double>(a)));
    case 4: return DynamicMatrix(new MSS(std::make_shared<S<double>>(sparse<double>(part(true))), std::make_shared<S<float>>(sparse<float>(part(false)))));
    case 5: return DynamicMatrix(new MSD(std::make_shared<S<double>>(sparse<double>(part(true))), std::make_shared<D<float>>(dense<float>(part(false)))));
    default: return DynamicMatrix(new D<double>(dense<double>(a)));
    }
}

template <class M> std::string kind();
template <> inline std::string kind<D<double>>() { return "Dense<double>"; }
template <> inline std::string kind<D<float>>() { return "Dense<float>"; }
template <> inline std::string kind<S<double>>() { return "Sparse<double>"; }
template <> inline std::string kind<S<float>>() { return "Sparse<float>"; }
template <> inline std::string kind<D<double, RM>>() { return "Dense<double,RowMajor>"; }
template <> inline std::string kind<D<float, RM>>() { return "Dense<float,RowMajor>"; }
template <> inline std::string kind<S<double, RM>>() { return "Sparse<double,RowMajor>"; }
template <> inline std::string kind<S<float, RM>>() { return "Sparse<float,RowMajor>"; }
template <> inline std::string kind<Z>() { return "Zero"; }
template <> inline std::string kind<MSS>() { return "Multi<SD,SF>"; }
template <> inline std::string kind<MSD>() { return "Multi<SD,DF>"; }

/// nonzero pattern number `bits` of a matrix
inline Ref pattern(size_t r, size_t c, unsigned long bits, double (*f)(size_t, size_t) = code)
{
    return make(r, c, [&](size_t i, size_t j) { return (bits >> (i * c + j)) & 1 ? f(i, j) : 0.0; });
}

/// a few structured patterns for larger shapes
inline Ref structured(size_t r, size_t c, int which, double (*f)(size_t, size_t) = code)
{
    return make(r, c, [&](size_t i, size_t j) -> double {
        bool on = false;
        switch (which) {
        case 0: on = true; break;
        case 1: on = false; break;
        case 2: on = i == j; break;
        case 3: on = (i + j) % 2 == 0; break;
        case 4: on = i + 1 == r && j + 1 == c; break;
        case 5: on = (3 * i + 5 * j) % 7 == 0; break;
        case 6: on = j % 3 == 1; break;
        case 7: on = i % 3 == 1; break;
        }
        return on ? f(i, j) : 0.0;
    });
}
static const int nb_structured = 8;

/// small nonzero integers: products of matrices filled with them stay exact in float
inline double wcode(size_t i, size_t j) { int x = int((i * 7 + j * 3 + (i * j) % 11) % 19) - 9; return x ? double(x) : 10.0; }
inline double wother(size_t i, size_t j) { int x = int((i * 5 + j * 11 + (i * j) % 7) % 17) - 8; return x ? double(x) : -9.0; }

/// sides around and beyond every register tile, unrolled loop and small block
inline std::vector<size_t> const& big_sides(bool thorough)
{
    static const std::vector<size_t> q{ 1, 2, 5, 8, 9, 13, 16, 17, 31, 32, 33, 64, 65, 100, 300 };
    static const std::vector<size_t> t{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257, 300 };
    return thorough ? t : q;
}
/// rows and columns of at most `limit` elements, and a row and a column which are longer than 16 bits can count
inline std::pair<size_t, size_t> wide_shape(mc::Ctx& ctx, size_t limit, bool longest = true)
{
    auto const& x = big_sides(ctx.thorough());
    size_t n = x.size(), k = ctx.choose(int(n * n + (longest ? 2 : 0)), "shape");
    if (k >= n * n) return k == n * n ? std::make_pair(size_t(1), size_t(70000)) : std::make_pair(size_t(70000), size_t(1));
    if (x[k / n] * x[k % n] > limit) throw mc::Prune();
    return { x[k / n], x[k % n] };
}
/// (rows, inner, columns): every side large with the others small, two large, all large
inline std::vector<std::array<size_t, 3>> big_triples(bool thorough)
{
    std::vector<std::array<size_t, 3>> x;
    for (size_t l : big_sides(thorough)) {
        if (l < 4) continue;
        x.push_back({ l, 2, 3 }); x.push_back({ 3, l, 2 }); x.push_back({ 2, 3, l });
        x.push_back({ l, 1, 1 }); x.push_back({ 1, l, 1 }); x.push_back({ 1, 1, l });
        if (l <= 129) { x.push_back({ l, l, 2 }); x.push_back({ l, 3, l }); x.push_back({ 1, l, l }); }
        if (l <= (thorough ? 65 : 33)) { x.push_back({ l, l, l }); x.push_back({ l, l + 1, l - 1 }); x.push_back({ l - 1, l, l + 3 }); }
    }
    x.push_back({ 1, 70000, 1 }); x.push_back({ 70000, 1, 2 }); x.push_back({ 2, 1, 70000 });
    return x;
}
/// operand patterns for large products: full, checkerboard, scattered, striped, last element only, empty
inline std::vector<std::pair<int, int>> const& big_patterns(bool thorough)
{
    static const std::vector<std::pair<int, int>> q{ {0, 0}, {0, 5}, {5, 0}, {3, 6}, {7, 3}, {4, 4} };
    static const std::vector<std::pair<int, int>> t{ {0, 0}, {0, 5}, {5, 0}, {3, 6}, {7, 3}, {4, 4}, {2, 2}, {6, 7}, {1, 0}, {0, 1}, {5, 5}, {0, 4}, {4, 0} };
    return thorough ? t : q;
}

/// live element allocations of the library
inline long live() { return long(blaze::verif::stats().live); }

} // namespace bb
