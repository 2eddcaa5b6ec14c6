// C28: the statistics of the deviation of two matrices equal their definition.
#define MC_MAIN
#include "bb.h"
#include <BlasBooster/Core/StatisticalErrorInformation.h>
using namespace bb;

namespace {

bool close(double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b)); }
double maximal(Ref const& a, Ref const& b) { double m = 0; for (size_t i = 0; i < a.v.size(); ++i) m = std::max(m, std::abs(a.v[i] - b.v[i])); return m; }
double rms(Ref const& a, Ref const& b) { long double s = 0; for (size_t i = 0; i < a.v.size(); ++i) s += (long double)(a.v[i] - b.v[i]) * (a.v[i] - b.v[i]); return double(std::sqrt(s / a.v.size())); }

template <class A, class B> void verify(mc::Ctx& ctx, A const& a, B const& b, Ref const& x, Ref const& y, std::string const& tag)
{
    double m = getMaximalDeviation(a, b), d = getRootMeanSquareDeviation(a, b);
    CHECK(m == maximal(x, y), "maximal deviation:" + tag, std::to_string(m) + " instead of " + std::to_string(maximal(x, y)) + " for " + str(x) + " and " + str(y));
    CHECK(close(d, rms(x, y)), "root mean square deviation:" + tag, std::to_string(d) + " instead of " + std::to_string(rms(x, y)) + " for " + str(x) + " and " + str(y));
    CHECK(getMaximalDeviation(b, a) == m && close(getRootMeanSquareDeviation(b, a), d), "symmetry:" + tag, str(x) + " and " + str(y));
    CHECK(getMaximalDeviation(a, a) == 0.0 && getRootMeanSquareDeviation(a, a) == 0.0, "itself:" + tag, str(x));
    CHECK(bb::ref(a) == x && bb::ref(b) == y, "operands changed:" + tag, "");
}

template <class A, class B> void pairs(mc::Ctx& ctx)
{
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    static const std::vector<std::pair<size_t, size_t>> shapes{ { 1, 1 }, { 1, 2 }, { 2, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 } };
    static const std::vector<double> vals{ 0, 1, -2, 0.5 };
    auto sh = ctx.pick(shapes, "shape");
    Ref x(sh.first, sh.second), y(sh.first, sh.second);
    for (double& e : x.v) e = ctx.pick(ctx.thorough() ? vals : std::vector<double>{ 0, 1, -2 }, "a");
    ctx.shard();
    for (double& e : y.v) e = ctx.pick(ctx.thorough() ? vals : std::vector<double>{ 0, 1, -2 }, "b");
    verify(ctx, A(dense<typename A::value_type, typename A::parameter>(x)), B(dense<typename B::value_type, typename B::parameter>(y)), x, y, tag);
    ctx.outcome(tag); ctx.state(mc::Hash()(tag)(hash(x).h)(hash(y).h));
}

/// larger shapes: the deviation sits at any one place
template <class A, class B> void places(mc::Ctx& ctx)
{
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    int top = ctx.tier(5, 8);
    size_t r = ctx.range(1, top, "rows"), c = ctx.range(1, top, "columns");
    ctx.shard();
    size_t at = ctx.choose(int(r * c), "at");
    double by = ctx.pick(std::vector<double>{ 0.25, -3, 1024, 0 }, "by");
    int base = ctx.choose(3, "base");
    Ref x = make(r, c, [&](size_t i, size_t j) { return base == 0 ? 0.0 : base == 1 ? code(i, j) : poscode(i, j); }), y = x;
    y.v[at] += by;
    if (ctx.flag("second")) y.v[(at + 2) % y.v.size()] -= 0.125;
    verify(ctx, A(dense<typename A::value_type, typename A::parameter>(x)), B(dense<typename B::value_type, typename B::parameter>(y)), x, y, tag);
    ctx.outcome(tag); ctx.state(mc::Hash()(tag)(r)(c)(at)(by)(base));
}
/// beyond every unrolled loop, the deviation at any of several places
template <class A, class B> void wide(mc::Ctx& ctx)
{
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    auto shape = wide_shape(ctx, ctx.tier(2200, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    const size_t n = r * c; const size_t at[] = { 0, n - 1, n / 2, n > 1 ? n - 2 : 0, c - 1, n - c, std::min(n - 1, size_t(64)), n * 3 / 4 };
    size_t p = at[ctx.choose(8, "at")]; int base = ctx.choose(2, "everywhere");
    Ref x = make(r, c, code), y = x;
    if (base) for (size_t i = 0; i < n; ++i) y.v[i] += double(int(i % 5)) * 0.25 - 0.5;
    y.v[p] -= 8;
    verify(ctx, A(dense<typename A::value_type, typename A::parameter>(x)), B(dense<typename B::value_type, typename B::parameter>(y)), x, y, tag);
    ctx.outcome(tag); ctx.state(mc::Hash()("wide")(tag)(r)(c)(p)(base));
}
typedef D<double> DD; typedef D<float> DF; typedef D<double, RM> RD; typedef D<float, RM> RF;
#define BOTH(n, A, B) mc::Register p##n("pairs " #A "," #B, pairs<A, B>, true), q##n("places " #A "," #B, places<A, B>, true), w##n("wide " #A "," #B, wide<A, B>, true);
BOTH(0, DD, DD) BOTH(1, DD, DF) BOTH(2, DF, DF) BOTH(3, RD, RD) BOTH(4, DD, RD) BOTH(5, RD, DD) BOTH(6, DF, RD) BOTH(7, RF, RF)

/// matrices which do not store every element: the others are zeros
template <class M> struct Of;
template <class T, class P> struct Of<Matrix<Dense, T, P>> { static Matrix<Dense, T, P> make(Ref const& a) { return dense<T, P>(a); } };
template <class T, class P> struct Of<Matrix<Sparse, T, P>> { static Matrix<Sparse, T, P> make(Ref const& a) { return sparse<T, P>(a); } };
template <> struct Of<Z> { static Z make(Ref const& a) { return Z(a.r, a.c); } };
template <class A, class B> void stored(mc::Ctx& ctx)
{
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    static const std::vector<std::pair<size_t, size_t>> shapes{ { 1, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 }, { 2, 3 } };
    auto sh = ctx.pick(shapes, "shape"); const int cells = int(sh.first * sh.second);
    unsigned long p = ctx.choose(1 << std::min(cells, ctx.tier(4, 6)), "stored in A"); ctx.shard();
    unsigned long q = ctx.choose(1 << std::min(cells, ctx.tier(4, 6)), "stored in B");
    Ref x = pattern(sh.first, sh.second, p, code), y = pattern(sh.first, sh.second, q, [](size_t i, size_t j) { return (i + j) % 2 ? -1.5 : code(i, j) + 0.5; });
    if (std::is_same<A, Z>::value) x = Ref(x.r, x.c);
    if (std::is_same<B, Z>::value) y = Ref(y.r, y.c);
    verify(ctx, Of<A>::make(x), Of<B>::make(y), x, y, tag);
    ctx.outcome("stored " + tag); ctx.state(mc::Hash()(tag)(hash(x).h)(hash(y).h));
}
#define STORED(n, A, B) mc::Register s##n("stored " #A "," #B, stored<A, B>, true);
typedef S<double> SD; typedef S<float> SF; typedef S<double, RM> SR;
STORED(0, SD, SD) STORED(1, SD, DD) STORED(2, SF, SD) STORED(3, SF, DF) STORED(4, SD, Z) STORED(5, DD, Z) STORED(6, Z, Z) STORED(7, SR, SR) STORED(8, SR, DD) STORED(9, SR, SD)

/// matrices of different shapes have no deviation, and nothing is read beyond either of them
template <class A, class B> void mismatch(mc::Ctx& ctx)
{
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    int n = ctx.tier(3, 4);
    size_t r = ctx.range(0, n, "rows of A"), c = ctx.range(0, n, "columns of A"), s = ctx.range(0, n, "rows of B"), d = ctx.range(0, n, "columns of B");
    if (r == s && c == d) throw mc::Prune();
    A a = Of<A>::make(make(r, c, code)); B b = Of<B>::make(make(s, d, code));
    for (int k = 0; k < 2; ++k) {
        bool refused = false; double x = 0;
        try { x = k ? getRootMeanSquareDeviation(a, b) : getMaximalDeviation(a, b); } catch (std::exception const&) { refused = true; }
        CHECK(refused, std::string(k ? "root mean square" : "maximal") + " deviation of different shapes:" + tag, std::to_string(r) + "x" + std::to_string(c) + " and " + std::to_string(s) + "x" + std::to_string(d) + ": " + std::to_string(x));
    }
    ctx.outcome("different shapes"); ctx.state(mc::Hash()("different")(tag)(r)(c)(s)(d));
}
mc::Register m0("different shapes D,D", mismatch<DD, DD>), m1("different shapes D,F", mismatch<DD, DF>), m2("different shapes D,RM", mismatch<DD, RD>), m3("different shapes S,S", mismatch<SD, SD>), m4("different shapes S,D", mismatch<SF, DD>), m5("different shapes D,Z", mismatch<DD, Z>), m6("different shapes RM,RM", mismatch<RF, RF>);

/// parts of matrices
SCENARIO_SHARDED(parts)
{
    typedef Matrix<Dense, double, SubCM> V;
    size_t r = ctx.range(1, 3, "rows"), c = ctx.range(1, 3, "columns"), ro = ctx.range(0, 2, "row offset"), co = ctx.range(0, 2, "column offset");
    ctx.shard();
    size_t at = ctx.choose(int(r * c), "at"); bool whole = ctx.flag("other is whole");
    Ref x = make(r, c, code), y = x; y.v[at] += 0.75;
    Ref bx(r + ro + 1, c + co + 1, 77.0), by(r + ro + 1, c + co + 1, -55.0);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { bx(i + ro, j + co) = x(i, j); by(i + ro, j + co) = y(i, j); }
    D<double> ma(dense<double>(bx)), mb(dense<double>(by)), my(dense<double>(y));
    V const va(ma, r, c, ro, co), vb(mb, r, c, ro, co);
    if (whole) verify(ctx, va, my, x, y, "part,whole"); else verify(ctx, va, vb, x, y, "part,part");
    ctx.outcome("parts"); ctx.state(mc::Hash()(r)(c)(ro)(co)(at)(whole));
}

} // namespace
