// C03: conversion of every matrix kind to a dense matrix keeps every element.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "bb.h"
using namespace bb;

namespace {

const double inf = std::numeric_limits<double>::infinity();
const double nan_ = std::numeric_limits<double>::quiet_NaN();
std::vector<double> const& specials()
{
    static const std::vector<double> v{ 0.0, -0.0, 1.0, -2.5, 1.0 / 3.0, -1e-3, nan_, inf, -inf, 1.0 + std::ldexp(1.0, -30), std::ldexp(1.0, -140), -std::ldexp(1.0, -1074), 16777217.0, 3e38, 1e-40 };
    return v;
}
template <class T> bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (std::memcmp(&a, &b, sizeof(T)) == 0); }

/// the dense matrix d has the dimensions of and holds the rounded elements f(i,j)
template <class T2, class P2, class F>
void verify(mc::Ctx& ctx, D<T2, P2> const& d, size_t r, size_t c, F f, std::string const& tag, bool zero_sign = true)
{
    CHECK(d.getNbRows() == r && d.getNbColumns() == c, "dim:" + tag, "result is " + std::to_string(d.getNbRows()) + "x" + std::to_string(d.getNbColumns()) + " instead of " + std::to_string(r) + "x" + std::to_string(c));
    CHECK((d.getSize() == r * c && static_cast<typename D<T2, P2>::storage const&>(d).size() == r * c), "size:" + tag, "result has the wrong size");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) {
        T2 e = static_cast<T2>(f(i, j)), x = d(i, j);
        CHECK(same(x, e) || (!zero_sign && x == e), "value:" + tag, "element (" + std::to_string(i) + "," + std::to_string(j) + ") of a " + std::to_string(r) + "x" + std::to_string(c) + " matrix becomes " + std::to_string(double(x)) + " instead of " + std::to_string(double(e)));
    }
}

template <class T, class P> std::string k() { return kind<D<T, P>>(); }
template <class T, class P> std::string ks() { return kind<S<T, P>>(); }

template <class T, class P, class T2, class P2>
void dense_dense(mc::Ctx& ctx, size_t r, size_t c, int rot)
{
    std::string tag = k<T, P>() + "->" + k<T2, P2>();
    ctx.note(tag);
    auto const& sp = specials();
    D<T, P> m(r, c);
    auto val = [&](size_t i, size_t j) { return static_cast<T>(sp[(i * c + j + rot) % sp.size()]); };
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = val(i, j);
    { D<T2, P2> d(m); verify(ctx, d, r, c, val, tag); d = T2(77); }
    { D<T2, P2> d(1, 2); d = m; verify(ctx, d, r, c, val, tag + ":assigned"); }
    verify(ctx, m, r, c, val, tag + ":source");
    ctx.state(mc::Hash()(tag)(r)(c)(rot));
}

// ---- value checkers: reference predicates written independently of the library
template <class T, class P, class T2, class P2, class Checker, class Accept>
void checked(mc::Ctx& ctx, size_t r, size_t c, int rot, Checker const& checker, Accept accept, std::vector<double> const& probe, std::string const& cname)
{
    std::string tag = k<T, P>() + "->" + k<T2, P2>() + ":" + cname;
    ctx.note(tag);
    D<T, P> m(r, c);
    auto val = [&](size_t i, size_t j) { return static_cast<T>(probe[(i * c + j + rot) % probe.size()]); };
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = val(i, j);
    auto expect = [&](size_t i, size_t j) { T x = val(i, j); return accept(x) ? x : T(0); };
    D<T2, P2> d(m, checker);
    verify(ctx, d, r, c, expect, tag, false);
    verify(ctx, m, r, c, val, tag + ":source");
    ctx.state(mc::Hash()(tag)(r)(c)(rot));
}

template <class TH> std::vector<double> probes(double lo, double hi)
{
    std::vector<double> p{ 0.0, lo / 2, std::nextafter(lo, 0.0), lo, std::nextafter(lo, inf), double(std::nextafter(float(lo), 0.f)), double(std::nextafter(float(lo), 1e30f)), (lo + hi) / 2,
        std::nextafter(hi, 0.0), hi, std::nextafter(hi, inf), double(std::nextafter(float(hi), 1e30f)), hi * 2 };
    std::vector<double> q;
    for (double x : p) { q.push_back(x); q.push_back(-x); }
    return q;
}

template <class T, class P, class T2, class P2> void checkers(mc::Ctx& ctx, size_t r, size_t c, int rot)
{
    const double lo = 0.25, hi = 4.0;
    auto p = probes<double>(lo, hi);
    checked<T, P, T2, P2>(ctx, r, c, rot, AbsoluteValueRangeChecker<double>(lo), [=](double x) { return std::fabs(x) > lo; }, p, ">lo");
    checked<T, P, T2, P2>(ctx, r, c, rot, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi), [=](double x) { return std::fabs(x) > lo && std::fabs(x) <= hi; }, p, "(lo,hi]");
    checked<T, P, T2, P2>(ctx, r, c, rot, AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound>(lo, hi), [=](double x) { return std::fabs(x) >= lo && std::fabs(x) <= hi; }, p, "[lo,hi]");
    checked<T, P, T2, P2>(ctx, r, c, rot, AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound>(lo, hi), [=](double x) { return std::fabs(x) > lo && std::fabs(x) < hi; }, p, "(lo,hi)");
    checked<T, P, T2, P2>(ctx, r, c, rot, [](double x) { return x < 0; }, [](double x) { return x < 0; }, p, "negative");
    ctx.outcome("checker conversion");
}

// ---- sparse
template <class T, class P, class T2, class P2> void sparse_dense(mc::Ctx& ctx, Ref const& a)
{
    std::string tag = ks<T, P>() + "->" + k<T2, P2>();
    ctx.note(tag);
    S<T, P> s = sparse<T, P>(a);
    auto val = [&](size_t i, size_t j) { return static_cast<T>(a(i, j)); };
    { D<T2, P2> d(s); verify(ctx, d, a.r, a.c, val, tag); }
    { D<T2, P2> d(2, 1); d = s; verify(ctx, d, a.r, a.c, val, tag + ":assigned"); }
    { // the stored values are copied whatever they are, explicit zeros, NaN and infinities included
        auto const& sp = specials();
        Ref b(a);
        size_t n = 0;
        auto* v = &*s.begin();
        bool cm = std::is_same<typename P::orientation, ColumnMajor>::value;
        for (size_t o = 0; o < (cm ? a.c : a.r); ++o) for (size_t e = 0; e < (cm ? a.r : a.c); ++e) { double& x = cm ? b(e, o) : b(o, e); if (x == 0.0) continue; x = sp[(n + a.r) % sp.size()]; v[n] = static_cast<T>(x); ++n; }
        D<T2, P2> d(s);
        verify(ctx, d, a.r, a.c, [&](size_t i, size_t j) { return static_cast<T>(b(i, j)); }, tag + ":special values");
    }
    ctx.state(mc::Hash()(tag)(hash(a)));
}

template <class T, class P> struct Source
{
    static void dd(mc::Ctx& ctx, size_t r, size_t c, int rot) { dense_dense<T, P, double, CM>(ctx, r, c, rot); dense_dense<T, P, float, CM>(ctx, r, c, rot); dense_dense<T, P, double, RM>(ctx, r, c, rot); dense_dense<T, P, float, RM>(ctx, r, c, rot); }
    static void ch(mc::Ctx& ctx, size_t r, size_t c, int rot) { checkers<T, P, double, CM>(ctx, r, c, rot); checkers<T, P, float, CM>(ctx, r, c, rot); checkers<T, P, double, RM>(ctx, r, c, rot); checkers<T, P, float, RM>(ctx, r, c, rot); }
    static void sd(mc::Ctx& ctx, Ref const& a) { sparse_dense<T, P, double, CM>(ctx, a); sparse_dense<T, P, float, CM>(ctx, a); sparse_dense<T, P, double, RM>(ctx, a); sparse_dense<T, P, float, RM>(ctx, a); }
};

#if MC_PART == 0
#define SRC double, CM
#define NAME(x) x##_double_column
#elif MC_PART == 1
#define SRC float, CM
#define NAME(x) x##_float_column
#elif MC_PART == 2
#define SRC double, RM
#define NAME(x) x##_double_row
#else
#define SRC float, RM
#define NAME(x) x##_float_row
#endif

} // namespace

static void NAME(dense)(mc::Ctx& ctx)
{
    int n = ctx.tier(4, 7);
    size_t r = ctx.range(0, n, "rows"), c = ctx.range(0, n, "columns");
    ctx.shard();
    Source<SRC>::dd(ctx, r, c, ctx.choose(int(specials().size()), "value rotation"));
    ctx.outcome("dense");
}
static mc::Register NAME(rd)("dense:" + k<SRC>(), NAME(dense), true);

static void NAME(checked)(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {0, 2}, {1, 1}, {1, 4}, {3, 2}, {2, 3}, {4, 1}, {4, 4}, {5, 3} };
    auto s = ctx.pick(sh);
    ctx.shard();
    Source<SRC>::ch(ctx, s.first, s.second, ctx.choose(26, "value rotation"));
}
static mc::Register NAME(rc)("checked:" + k<SRC>(), NAME(checked), true);

static void NAME(sparse_all)(mc::Ctx& ctx)
{
    int n = 3;
    size_t r = ctx.range(0, n, "rows"), c = ctx.range(0, n, "columns");
    unsigned long bits = ctx.choose(1 << (r * c), "pattern");
    ctx.shard();
    Source<SRC>::sd(ctx, pattern(r, c, bits));
    ctx.outcome("sparse pattern");
}
static mc::Register NAME(rs)("sparse:" + k<SRC>(), NAME(sparse_all), true);

static void NAME(sparse_big)(mc::Ctx& ctx)
{
    static const std::vector<size_t> sz{ 1, 4, 7, 16, 33 };
    size_t r = ctx.pick(sz), c = ctx.pick(sz);
    int w = ctx.choose(nb_structured, "pattern");
    ctx.shard();
    Source<SRC>::sd(ctx, structured(r, c, w));
    if (ctx.thorough()) Source<SRC>::sd(ctx, structured(r * 2, c + 1, w));
    ctx.outcome("large sparse pattern");
}
static mc::Register NAME(rb)("sparse-large:" + k<SRC>(), NAME(sparse_big), true);

// beyond every unrolled loop
static void NAME(wide)(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(4225, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    int w = ctx.choose(4, "pattern");
    Source<SRC>::dd(ctx, r, c, w); Source<SRC>::ch(ctx, r, c, w);
    Source<SRC>::sd(ctx, structured(r, c, w == 1 ? 5 : w == 2 ? 7 : w));
    ctx.outcome("wide");
}
static mc::Register NAME(rw)("wide:" + k<SRC>(), NAME(wide), true);

#if MC_PART == 0
namespace {
template <class T2> void others(mc::Ctx& ctx, Ref const& a)
{
    auto val = [&](size_t i, size_t j) { return a(i, j); };
    auto zero = [&](size_t, size_t) { return 0.0; };
    std::string to = "->" + kind<D<T2>>();
    { ctx.note("Zero" + to); Z z(a.r, a.c); D<T2> d(z); verify(ctx, d, a.r, a.c, zero, "Zero" + to, false); }
    for (int t = 0; t < 7; ++t) {
        DynamicMatrix m = dynamic(t, a);
        ctx.note(dyn_names[t] + to);
        Ref e = t == 0 ? Ref(a.r, a.c) : a;
        auto ev = [&](size_t i, size_t j) { return e(i, j); };
        D<T2> d(m);
        verify(ctx, d, a.r, a.c, ev, std::string("Dynamic ") + dyn_names[t] + to, false);
        CHECK(bb::ref(m) == e, std::string("source:Dynamic ") + dyn_names[t] + to, "conversion changed the source");
        D<T2> d2(3, 1); d2 = m;
        verify(ctx, d2, a.r, a.c, ev, std::string("assigned Dynamic ") + dyn_names[t] + to, false);
    }
    DynamicMatrix m4 = dynamic(4, a), m5 = dynamic(5, a);
    { ctx.note("MSS" + to); D<T2> d(*cast<MSS>(m4)); verify(ctx, d, a.r, a.c, val, "Multi<SD,SF>" + to, false); }
    { ctx.note("MSD" + to); D<T2> d(*cast<MSD>(m5)); verify(ctx, d, a.r, a.c, val, "Multi<SD,DF>" + to, false); }
    ctx.state(mc::Hash()(to)("others")(hash(a)));
}
}
SCENARIO_SHARDED(zero_multi_dynamic)
{
    int n = 3;
    size_t r = ctx.range(0, n, "rows"), c = ctx.range(0, n, "columns");
    unsigned long bits = ctx.choose(1 << (r * c), "pattern");
    ctx.shard();
    others<double>(ctx, pattern(r, c, bits)); others<float>(ctx, pattern(r, c, bits));
    ctx.outcome("dynamic");
}
SCENARIO_SHARDED(zero_multi_dynamic_large)
{
    auto shape = wide_shape(ctx, ctx.tier(4225, 20000)); size_t r = shape.first, c = shape.second;
    int w = ctx.choose(nb_structured, "pattern");
    ctx.shard();
    others<double>(ctx, structured(r, c, w)); others<float>(ctx, structured(r, c, w));
    ctx.outcome("large dynamic");
}
// submatrices: all windows (C02 checks the views themselves)
SCENARIO_SHARDED(wide_windows)
{
    size_t r = ctx.pick(big_sides(ctx.thorough())), c = ctx.pick(big_sides(ctx.thorough()));
    if (r * c > 4225) throw mc::Prune();
    ctx.shard();
    size_t before = ctx.choose(3, "rows and columns before the window"), after = ctx.choose(3, "rows and columns after the window");
    size_t R = r + before + after, C = c + before + after;
    D<double> b = dense<double>(make(R, C, code));
    D<float> bf = dense<float>(make(R, C, code));
    Matrix<Dense, double, SubCM> v(b, r, c, before, before);
    Matrix<Dense, float, SubCM> vf(bf, r, c, before, before);
    auto val = [&](size_t i, size_t j) { return code(before + i, before + j); };
    D<double> d(v); verify(ctx, d, r, c, val, "sub double->double");
    D<float> f(v); verify(ctx, f, r, c, val, "sub double->float");
    D<double> df(vf); verify(ctx, df, r, c, val, "sub float->double");
    D<float> ff(vf); verify(ctx, ff, r, c, val, "sub float->float");
    ctx.state(mc::Hash()("wide window")(r)(c)(before)(after));
    ctx.outcome("wide window");
}
SCENARIO_SHARDED(windows)
{
    int n = ctx.tier(4, 5);
    size_t R = ctx.range(1, n, "rows"), C = ctx.range(1, n, "columns");
    ctx.shard();
    size_t r = ctx.range(1, int(R)), c = ctx.range(1, int(C)), i0 = ctx.range(0, int(R - r)), j0 = ctx.range(0, int(C - c));
    D<double> b = dense<double>(make(R, C, code));
    D<float> bf = dense<float>(make(R, C, code));
    Matrix<Dense, double, SubCM> v(b, r, c, i0, j0);
    Matrix<Dense, float, SubCM> vf(bf, r, c, i0, j0);
    auto val = [&](size_t i, size_t j) { return code(i0 + i, j0 + j); };
    D<double> d(v); verify(ctx, d, r, c, val, "sub double->double");
    D<float> f(v); verify(ctx, f, r, c, val, "sub double->float");
    D<double> df(vf); verify(ctx, df, r, c, val, "sub float->double");
    D<float> ff(vf); verify(ctx, ff, r, c, val, "sub float->float");
    auto neg = [](double x) { return x < 0; };
    D<double> nd(v, neg); verify(ctx, nd, r, c, [&](size_t i, size_t j) { double x = val(i, j); return x < 0 ? x : 0.0; }, "sub checked");
    ctx.state(mc::Hash()("window")(R)(C)(r)(c)(i0)(j0));
    ctx.outcome("window");
}
#endif
