// Stand-in for the (not installed) blaze/Math.h: the part of CustomMatrix that
// Multiplication_Blaze.h uses, with textbook semantics on the given memory and spacing.
// Alignment/padding contracts of real blaze are not modelled.
#pragma once
#include <cstddef>
#include <stdexcept>
#include <vector>
#include <type_traits>
#include "blaze/util/Memory.h"
namespace blaze {
enum AlignmentFlag { unaligned, aligned };
enum PaddingFlag { unpadded, padded };
constexpr bool columnMajor = true;
constexpr bool rowMajor = false;
template <class T, AlignmentFlag AF, PaddingFlag PF, bool SO>
struct CustomMatrix {
    CustomMatrix(T* p, std::size_t m, std::size_t n, std::size_t nn) : p(p), m(m), n(n), nn(nn)
    { if (p == nullptr || nn < (SO ? m : n)) throw std::invalid_argument("CustomMatrix: invalid setup"); }
    T& operator()(std::size_t i, std::size_t j) const { return SO ? p[i + j * nn] : p[i * nn + j]; }
    template <class E> CustomMatrix& operator=(E const& e)
    {
        if (e.rows() != m || e.columns() != n) throw std::invalid_argument("CustomMatrix: size mismatch");
        for (std::size_t j = 0; j != n; ++j) for (std::size_t i = 0; i != m; ++i) (*this)(i, j) = e.at(i, j);
        return *this;
    }
    std::size_t rows() const { return m; }
    std::size_t columns() const { return n; }
    T* p; std::size_t m, n, nn;
};
template <class A, class B> struct Product {
    A const& a; B const& b;
    std::size_t rows() const { return a.rows(); }
    std::size_t columns() const { return b.columns(); }
    auto at(std::size_t i, std::size_t j) const
    { decltype(a(0,0) * b(0,0)) s = 0; for (std::size_t k = 0; k != a.columns(); ++k) s += a(i,k) * b(k,j); return s; }
};
template <class T1, AlignmentFlag A1, PaddingFlag P1, bool S1, class T2, AlignmentFlag A2, PaddingFlag P2, bool S2>
Product<CustomMatrix<T1,A1,P1,S1>, CustomMatrix<T2,A2,P2,S2>>
operator*(CustomMatrix<T1,A1,P1,S1> const& a, CustomMatrix<T2,A2,P2,S2> const& b)
{ if (a.columns() != b.rows()) throw std::invalid_argument("Matrix sizes do not match"); return {a, b}; }
}
