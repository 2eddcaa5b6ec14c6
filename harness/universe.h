// A few matrix objects of one type together with the values their history implies, and all whole-matrix operations on them.
#pragma once
#include "bb.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <BlasBooster/Core/MatrixFiller.h>
#include <BlasBooster/Core/Transposition.h>

namespace bb {

enum Life { Absent, Live, MovedFrom };

template <class M> struct Slot { std::unique_ptr<M> m; Ref r; Life life = Absent; };

template <class M> struct is_dense : std::false_type {}; template <class T, class P> struct is_dense<Matrix<Dense, T, P>> : std::true_type {};
template <class M> struct is_sparse : std::false_type {}; template <class T, class P> struct is_sparse<Matrix<Sparse, T, P>> : std::true_type {};
template <class M> struct is_zero : std::false_type {}; template <class P> struct is_zero<Matrix<Zero, NullType, P>> : std::true_type {};

inline std::vector<Ref> const& contents()
{
    static const std::vector<Ref> v{
        pattern(2, 2, 15), make(2, 2, [](size_t i, size_t j) { return i == j ? 0.5 : 0.0; }), make(1, 3, [](size_t, size_t j) { return j == 1 ? 0.0 : -double(j + 2); }), Ref(0, 0), Ref(2, 1) };
    return v;
}
template <class M> M build(Ref const& a)
{
    if constexpr (is_zero<M>::value) return M(a.r, a.c);
    else if constexpr (is_sparse<M>::value) return sparse<typename M::value_type, typename M::parameter>(a);
    else return dense<typename M::value_type, typename M::parameter>(a);
}
template <class M> Ref value_of(Ref const& a) { if (is_zero<M>::value) return Ref(a.r, a.c); return a; }

template <class M> struct Universe
{
    std::vector<Slot<M>> s;
    Universe(size_t n) : s(n) {}
    bool live(size_t i) const { return s[i].life == Live; }
    bool there(size_t i) const { return s[i].life != Absent; }
};

/// An operation either is not applicable (false) or changes objects and reference values.
template <class M> struct Op { std::string name; std::function<bool(Universe<M>&)> run; };

template <class M> std::vector<Op<M>> operations(size_t n, bool lifetime)
{
    typedef Universe<M> U;
    std::vector<Op<M>> ops;
    auto def = [&](std::string const& name, std::function<bool(U&)> f) { ops.push_back({ name, f }); };
    for (size_t i = 0; i < n; ++i) {
        std::string I = "m" + std::to_string(i);
        if (lifetime) {
            def(I + " default constructed", [i](U& u) { if (u.there(i)) return false; u.s[i].m.reset(new M()); u.s[i].r = Ref(0, 0); u.s[i].life = Live; return true; });
            def(I + " destroyed", [i](U& u) { if (!u.there(i)) return false; u.s[i].m.reset(); u.s[i].life = Absent; return true; });
            for (size_t k = 0; k < contents().size(); ++k)
                def(I + " constructed " + str(contents()[k]), [i, k](U& u) { if (u.there(i)) return false; u.s[i].m.reset(new M(build<M>(contents()[k]))); u.s[i].r = value_of<M>(contents()[k]); u.s[i].life = Live; return true; });
        }
        for (size_t k = 0; k < contents().size(); ++k)
            def(I + " = " + str(contents()[k]), [i, k](U& u) { if (!u.there(i)) return false; *u.s[i].m = build<M>(contents()[k]); u.s[i].r = value_of<M>(contents()[k]); u.s[i].life = Live; return true; });
        def(I + " = " + I, [i](U& u) { if (!u.live(i)) return false; M& m = *u.s[i].m; m = static_cast<M const&>(m); return true; });
        def(I + " = move(" + I + ")", [i](U& u) { if (!u.live(i)) return false; M& m = *u.s[i].m; m = std::move(m); return true; });
        def(I + " moved out and in", [i](U& u) { if (!u.live(i)) return false; M t(std::move(*u.s[i].m)); *u.s[i].m = std::move(t); return true; });
        def("swap(" + I + "," + I + ")", [i](U& u) { if (!u.live(i)) return false; using std::swap; swap(*u.s[i].m, *u.s[i].m); return true; });
        static const std::vector<std::pair<size_t, size_t>> sizes{ {2, 2}, {1, 4}, {3, 1}, {0, 2} };
        for (auto sz : sizes) {
            std::string S = I + " resized to " + std::to_string(sz.first) + "x" + std::to_string(sz.second);
            if constexpr (is_dense<M>::value) {
                def(S + " and filled", [i, sz](U& u) { if (!u.there(i)) return false; u.s[i].m->resize(sz.first, sz.second, AllFiller<typename M::value_type>(3)); u.s[i].r = Ref(sz.first, sz.second, 3.0); u.s[i].life = Live; return true; });
                def(S + " and written", [i, sz](U& u) {
                    if (!u.there(i)) return false;
                    M& m = *u.s[i].m; m.resize(sz.first, sz.second); m = typename M::value_type(2);
                    u.s[i].r = Ref(sz.first, sz.second, 2.0); u.s[i].life = Live; return true; });
            } else if constexpr (is_sparse<M>::value) {
                def(S + " and filled", [i, sz](U& u) {
                    if (!u.there(i)) return false;
                    M& m = *u.s[i].m; m.resize(sz.first, sz.second);
                    bool cm = std::is_same<typename M::parameter::orientation, ColumnMajor>::value; size_t outer = cm ? sz.second : sz.first, inner = cm ? sz.first : sz.second, p = 0;
                    if (m.nnz() != sz.first * sz.second || m.sizeOffset() != outer + 1) throw mc::Failure{ "resize", "resized sparse matrix has room for " + std::to_string(m.nnz()) + " elements and " + std::to_string(m.sizeOffset()) + " offsets" };
                    for (size_t o = 0; o < outer; ++o) { m.beginOffset()[o] = p; for (size_t k = 0; k < inner; ++k, ++p) { m.begin()[p] = 3; m.beginKey()[p] = k; } }
                    m.beginOffset()[outer] = p;
                    u.s[i].r = Ref(sz.first, sz.second, 3.0); u.s[i].life = Live; return true; });
            } else
                def(S, [i, sz](U& u) { if (!u.there(i)) return false; u.s[i].m->resize(sz.first, sz.second); u.s[i].r = Ref(sz.first, sz.second); u.s[i].life = Live; return true; });
        }
        if constexpr (is_dense<M>::value) {
            typedef typename M::value_type T; typedef typename M::parameter P;
            def(I + " = 4", [i](U& u) { if (!u.live(i)) return false; *u.s[i].m = T(4); for (double& x : u.s[i].r.v) x = 4; return true; });
            def(I + " += itself", [i](U& u) { if (!u.live(i)) return false; *u.s[i].m += *u.s[i].m; u.s[i].r = add(u.s[i].r, u.s[i].r); return true; });
            def(I + " += sparse", [i](U& u) { if (!u.live(i)) return false; Ref a = u.s[i].r; for (size_t k = 0; k < a.v.size(); ++k) a.v[k] = k % 2 ? 2.0 : 0.0; *u.s[i].m += sparse<T, P>(a); u.s[i].r = add(u.s[i].r, a); return true; });
            def(I + " -= sparse", [i](U& u) { if (!u.live(i)) return false; Ref a = u.s[i].r; for (size_t k = 0; k < a.v.size(); ++k) a.v[k] = k % 2 ? 0.0 : 2.0; *u.s[i].m -= sparse<T, P>(a); u.s[i].r = add(u.s[i].r, a, -1.0); return true; });
            for (size_t k : { 0, 2, 3 }) {
                static std::vector<std::string> saved(contents().size());
                if (saved[k].empty()) { std::ostringstream o; { boost::archive::binary_oarchive ar(o); const D<T, P> m = dense<T, P>(contents()[k]); ar << m; } saved[k] = o.str(); }
                def(I + " loaded " + str(contents()[k]), [i, k](U& u) { if (!u.there(i)) return false; std::istringstream in(saved[k]); boost::archive::binary_iarchive ar(in); ar >> *u.s[i].m; u.s[i].r = contents()[k]; u.s[i].life = Live; return true; });
            }
        }
        if constexpr (!is_zero<M>::value)
            def(I + " = transpose(" + I + ")", [i](U& u) { if (!u.live(i)) return false; if constexpr (is_sparse<M>::value) if (u.s[i].m->sizeOffset() == 0) return false; *u.s[i].m = transpose(*u.s[i].m); u.s[i].r = u.s[i].r.t(); return true; });
        for (size_t j = 0; j < n; ++j) if (i != j) {
            std::string J = "m" + std::to_string(j);
            if (lifetime) {
                def(I + " copied from " + J, [i, j](U& u) { if (u.there(i) || !u.live(j)) return false; u.s[i].m.reset(new M(static_cast<M const&>(*u.s[j].m))); u.s[i].r = u.s[j].r; u.s[i].life = Live; return true; });
                def(I + " moved from " + J, [i, j](U& u) { if (u.there(i) || !u.live(j)) return false; u.s[i].m.reset(new M(std::move(*u.s[j].m))); u.s[i].r = u.s[j].r; u.s[i].life = Live; u.s[j].life = MovedFrom; return true; });
            }
            def(I + " = " + J, [i, j](U& u) { if (!u.there(i) || !u.live(j)) return false; *u.s[i].m = static_cast<M const&>(*u.s[j].m); u.s[i].r = u.s[j].r; u.s[i].life = Live; return true; });
            def(I + " = move(" + J + ")", [i, j](U& u) { if (!u.there(i) || !u.live(j)) return false; *u.s[i].m = std::move(*u.s[j].m); u.s[i].r = u.s[j].r; u.s[i].life = Live; u.s[j].life = MovedFrom; return true; });
            if (i < j) def("swap(" + I + "," + J + ")", [i, j](U& u) { if (!u.there(i) || !u.there(j)) return false; using std::swap; swap(*u.s[i].m, *u.s[j].m); std::swap(u.s[i].r, u.s[j].r); std::swap(u.s[i].life, u.s[j].life); return true; });
            if constexpr (is_dense<M>::value) {
                def(I + " += " + J, [i, j](U& u) { if (!u.live(i) || !u.live(j) || u.s[i].r.r != u.s[j].r.r || u.s[i].r.c != u.s[j].r.c) return false; *u.s[i].m += *u.s[j].m; u.s[i].r = add(u.s[i].r, u.s[j].r); return true; });
                def(I + " -= " + J, [i, j](U& u) { if (!u.live(i) || !u.live(j) || u.s[i].r.r != u.s[j].r.r || u.s[i].r.c != u.s[j].r.c) return false; *u.s[i].m -= *u.s[j].m; u.s[i].r = add(u.s[i].r, u.s[j].r, -1.0); return true; });
            }
            if constexpr (!is_zero<M>::value) {
                typedef typename M::value_type T; typedef typename M::parameter P; typedef typename std::conditional<std::is_same<T, double>::value, float, double>::type T2;
                auto defined = [](U& u, size_t j) { if constexpr (is_sparse<M>::value) return u.s[j].m->sizeOffset() != 0; else return true; };
                def(I + " = other precision of " + J, [i, j, defined](U& u) {
                    if (!u.there(i) || !u.live(j) || !defined(u, j)) return false;
                    if constexpr (is_dense<M>::value) { D<T2, P> x(*u.s[j].m); *u.s[i].m = M(x); } else { S<T2, P> x(*u.s[j].m); *u.s[i].m = M(x); }
                    u.s[i].r = u.s[j].r; u.s[i].life = Live; return true; });
                typedef typename std::conditional<std::is_same<typename P::orientation, ColumnMajor>::value, RM, CM>::type P2;
                def(I + " = other orientation of " + J, [i, j, defined](U& u) {
                    if (!u.there(i) || !u.live(j) || !defined(u, j)) return false;
                    if constexpr (is_dense<M>::value) { D<T, P2> x(*u.s[j].m); *u.s[i].m = M(x); } else { S<T, P2> x(*u.s[j].m); *u.s[i].m = M(x); }
                    u.s[i].r = u.s[j].r; u.s[i].life = Live; return true; });
                def(I + " = " + I + " + " + J, [i, j, defined](U& u) {
                    if (!u.live(i) || !u.live(j) || !defined(u, i) || !defined(u, j) || u.s[i].r.r != u.s[j].r.r || u.s[i].r.c != u.s[j].r.c) return false;
                    *u.s[i].m = *u.s[i].m + *u.s[j].m; u.s[i].r = add(u.s[i].r, u.s[j].r); return true; });
                if constexpr (std::is_same<typename P::orientation, ColumnMajor>::value)
                    def(I + " = " + I + " * " + J, [i, j, defined](U& u) {
                        if (!u.live(i) || !u.live(j) || !defined(u, i) || !defined(u, j) || u.s[i].r.c != u.s[j].r.r) return false;
                        *u.s[i].m = M(*u.s[i].m * *u.s[j].m); u.s[i].r = mul(u.s[i].r, u.s[j].r); return true; });
            }
        }
    }
    return ops;
}

} // namespace bb
