// Products of single elements which are not exact: every result element is the product of two elements, rounded once.
#pragma once
#include "bb.h"
#include <cfloat>

namespace bb {

inline std::vector<double> const& factors()
{
    static const double inf = std::numeric_limits<double>::infinity();
    static const std::vector<double> x{ 1.0, -3.0, 1.0 + std::ldexp(1.0, -40), 1.0 / 3.0, -0.1, 16777217.0, std::ldexp(1.0, -1060), std::ldexp(3.0, -545), std::ldexp(1.0, -140),
        1e300, -3.0e38, 1e39, 1e-30, inf, std::numeric_limits<double>::quiet_NaN() };
    return x;
}
template <class M> struct IsSparse { static const bool value = std::is_same<typename M::matrix_type, Sparse>::value; };

/// `multiply(a, b)` on a column and a row; the operands are rounded to the types of their matrices first
template <class A, class B, class MA, class MB, class F>
void value_product(mc::Ctx& ctx, std::string const& tag, Ref const& a, Ref const& b, MA make_a, MB make_b, F multiply)
{
    typedef typename A::value_type TA; typedef typename B::value_type TB;
    ctx.note("values " + tag);
    bool zero = false, special = false;
    for (double x : a.v) { zero |= TA(x) == 0; special |= !std::isfinite(TA(x)); }
    for (double x : b.v) { zero |= TB(x) == 0; special |= !std::isfinite(TB(x)); }
    if (zero && special) return;   // 0 * infinity depends on whether zeros are stored
    auto pa = make_a(a); auto pb = make_b(b);
    auto c = multiply(*pa, *pb);
    typedef typename decltype(c)::value_type TC;
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) {
        auto p = TA(a(i, 0)) * TB(b(0, j));
        double e = TC(p), x = bb::ref(c)(i, j);
        CHECK((std::isnan(e) && std::isnan(x)) || x == e, "exact value:" + tag, std::to_string(i) + "," + std::to_string(j) + " of " + str(a) + " * " + str(b) + " is " + str(bb::ref(c)));
    }
}
inline std::pair<Ref, Ref> value_operands(mc::Ctx& ctx)
{
    auto const& f = factors();
    Ref a(2, 1), b(1, 2);
    a.v[0] = ctx.pick(f); b.v[0] = ctx.pick(f);
    ctx.shard();
    int other = ctx.choose(3, "others");
    a.v[1] = other == 0 ? 1.0 : other == 1 ? b.v[0] : a.v[0] / 3;
    b.v[1] = other == 0 ? -2.0 : other == 1 ? a.v[0] : b.v[0] * 3;
    return { a, b };
}

} // namespace bb
