// C04: every sparse matrix is canonical compressed storage and holds exactly the significant elements.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "bb.h"
using namespace bb;

namespace {

const double inf = std::numeric_limits<double>::infinity();
template <class T, class P> std::string ks() { return kind<S<T, P>>(); }
template <class T, class P> std::string kd() { return kind<D<T, P>>(); }

/// s is canonical, stores exactly the elements of `stored` and has the values of e
template <class T, class P> void verify(mc::Ctx& ctx, S<T, P> const& s, Ref const& e, std::vector<bool> const& stored, std::string const& tag)
{
    CHECK(s.getNbRows() == e.r && s.getNbColumns() == e.c && s.getSize() == e.r * e.c, "dim:" + tag, "result has wrong dimensions");
    std::string c = canonical(s);
    CHECK(c.empty(), "canonical:" + tag, c + " for " + str(e));
    Ref x = bb::ref(s);
    CHECK(x == e, "value:" + tag, str(x) + " instead of " + str(e));
    size_t n = 0;
    for (bool b : stored) n += b;
    if (stored.size()) CHECK(s.nnz() == n, "nnz:" + tag, std::to_string(s.nnz()) + " stored elements instead of " + std::to_string(n));
}
std::vector<bool> nz(Ref const& a) { std::vector<bool> b; for (double x : a.v) b.push_back(x != 0.0); if (b.empty()) b.push_back(false); return b; }
template <class T> Ref rounded(Ref a) { for (double& x : a.v) x = static_cast<T>(x); return a; }

template <class T, class P, class T2, class P2> void from_dense(mc::Ctx& ctx, Ref const& a)
{
    std::string tag = kd<T, P>() + "->" + ks<T2, P2>();
    ctx.note(tag);
    D<T, P> d = dense<T, P>(a);
    Ref r = rounded<T2>(rounded<T>(a));
    { S<T2, P2> s(d); verify(ctx, s, r, nz(r), tag);
      D<T2, CM> back(s); CHECK(bb::ref(back) == r, "back:" + tag, "converting back gives " + str(bb::ref(back)) + " instead of " + str(r)); }
    { S<T2, P2> s(sparse<T2, P2>(make(2, 3, code))); s = S<T2, P2>(d); verify(ctx, s, r, nz(r), tag + ":assigned"); }
    { // a negative zero is a zero
        D<T, P> m(d); for (auto& x : m) if (x == 0) x = T(-0.0);
        S<T2, P2> s(m); verify(ctx, s, r, nz(r), tag + ":-0");
    }
    CHECK(bb::ref(d) == rounded<T>(a), "source:" + tag, "conversion changed the source");
    { // the count must be that of the current elements
        S<T2, P2> first(d);
        d.getNbOfSignificantElements(AbsoluteValueRangeChecker<T2>());
        Ref b(a); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) { b(i, j) = b(i, j) == 0.0 ? code(i, j) : 0.0; d(i, j) = T(b(i, j)); }
        S<T2, P2> s(d); verify(ctx, s, rounded<T2>(rounded<T>(b)), nz(b), tag + ":changed after a query");
    }
    ctx.state(mc::Hash()(tag)(hash(a)));
}

template <class T, class P, class T2, class P2, class Checker, class Accept>
void one_checker(mc::Ctx& ctx, Ref const& a, Checker const& checker, Accept accept, std::string const& cname)
{
    Ref e(a.r, a.c), src = rounded<T>(a);
    std::vector<bool> st;
    for (size_t i = 0; i < a.v.size(); ++i) { st.push_back(accept(src.v[i])); e.v[i] = st.back() ? double(T2(src.v[i])) : 0.0; }
    { std::string tag = kd<T, P>() + "->" + ks<T2, P2>() + ":" + cname; ctx.note(tag);
      D<T, P> d = dense<T, P>(a); S<T2, P2> s(d, checker); verify(ctx, s, e, st, tag); }
    { std::string tag = ks<T, P>() + "->" + ks<T2, P2>() + ":" + cname; ctx.note(tag);
      for (size_t i = 0; i < a.v.size(); ++i) if (src.v[i] == 0.0) st[i] = false;
      Ref e2(e); for (size_t i = 0; i < a.v.size(); ++i) if (!st[i]) e2.v[i] = 0.0;
      S<T, P> d = sparse<T, P>(a); S<T2, P2> s(d, checker); verify(ctx, s, e2, st, tag);
      CHECK(bb::ref(d) == src && canonical(d).empty(), "source:" + tag, "conversion changed the source"); }
}

template <class T, class P, class T2, class P2> void checkers(mc::Ctx& ctx, Ref const& a)
{
    const double lo = 0.25, hi = 4.0;
    one_checker<T, P, T2, P2>(ctx, a, AbsoluteValueRangeChecker<double>(lo), [=](double x) { return std::fabs(x) > lo; }, ">lo");
    one_checker<T, P, T2, P2>(ctx, a, AbsoluteValueRangeChecker<float>(float(lo)), [=](double x) { return std::fabs(x) > lo; }, ">lo (float)");
    one_checker<T, P, T2, P2>(ctx, a, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi), [=](double x) { return std::fabs(x) > lo && std::fabs(x) <= hi; }, "(lo,hi]");
    one_checker<T, P, T2, P2>(ctx, a, AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound>(lo, hi), [=](double x) { return std::fabs(x) >= lo && std::fabs(x) <= hi; }, "[lo,hi]");
    one_checker<T, P, T2, P2>(ctx, a, AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound>(lo, hi), [=](double x) { return std::fabs(x) > lo && std::fabs(x) < hi; }, "(lo,hi)");
    ctx.state(mc::Hash()("checker")(kd<T, P>())(kd<T2, P2>())(hash(a)));
}

template <class T, class P, class T2, class P2> void from_sparse(mc::Ctx& ctx, Ref const& a)
{
    std::string tag = ks<T, P>() + "->" + ks<T2, P2>();
    ctx.note(tag);
    S<T, P> d = sparse<T, P>(a);
    Ref r = rounded<T2>(rounded<T>(a));
    { S<T2, P2> s(d); verify(ctx, s, r, nz(a), tag); }
    { S<T2, P2> s(1, 4, 2); s = S<T2, P2>(d); verify(ctx, s, r, nz(a), tag + ":assigned"); }
    CHECK(bb::ref(d) == rounded<T>(a) && canonical(d).empty(), "source:" + tag, "conversion changed the source");
    ctx.state(mc::Hash()(tag)(hash(a)));
}

template <class T, class P> void self_ops(mc::Ctx& ctx, Ref const& a)
{
    std::string tag = ks<T, P>();
    ctx.note("transpose:" + tag);
    S<T, P> d = sparse<T, P>(a);
    Ref r = rounded<T>(a);
    verify(ctx, transpose(d), r.t(), nz(a.t()), "transpose:" + tag);
    ctx.note("truncate:" + tag);
    { S<T, P> c(d); verify(ctx, c, r, nz(a), "copy:" + tag); S<T, P> m(std::move(c)); verify(ctx, m, r, nz(a), "move:" + tag); S<T, P> x(1, 1, 1); x = m; verify(ctx, x, r, nz(a), "copy assignment:" + tag); }
}

template <class T, class P> struct Source
{
    template <template <class, class, class, class> class F> static void all(mc::Ctx& ctx, Ref const& a);
    static void fd(mc::Ctx& c, Ref const& a) { from_dense<T, P, double, CM>(c, a); from_dense<T, P, float, CM>(c, a); from_dense<T, P, double, RM>(c, a); from_dense<T, P, float, RM>(c, a); }
    static void fs(mc::Ctx& c, Ref const& a) { from_sparse<T, P, double, CM>(c, a); from_sparse<T, P, float, CM>(c, a); from_sparse<T, P, double, RM>(c, a); from_sparse<T, P, float, RM>(c, a); self_ops<T, P>(c, a); }
    static void ch(mc::Ctx& c, Ref const& a) { checkers<T, P, double, CM>(c, a); checkers<T, P, float, CM>(c, a); checkers<T, P, double, RM>(c, a); checkers<T, P, float, RM>(c, a); }
};

#if MC_PART == 0
#define SRC double, CM
#define NAME(x) x##_double_column
#elif MC_PART == 1
#define SRC float, CM
#define NAME(x) x##_float_column
#elif MC_PART == 2
#define SRC double, RM
#define NAME(x) x##_double_row
#else
#define SRC float, RM
#define NAME(x) x##_float_row
#endif

double inexact(size_t i, size_t j) { return code(i, j) / 3.0; }

void all_conversions(mc::Ctx& ctx, Ref const& a) { Source<SRC>::fd(ctx, a); Source<SRC>::fs(ctx, a); }

} // namespace

static void NAME(patterns)(mc::Ctx& ctx)
{
    size_t r = ctx.range(0, 3, "rows"), c = ctx.range(0, 3, "columns");
    unsigned long bits = ctx.choose(1 << (r * c), "pattern");
    ctx.shard();
    all_conversions(ctx, pattern(r, c, bits));
    all_conversions(ctx, pattern(r, c, bits, inexact));
    ctx.outcome("pattern");
}
static mc::Register NAME(rp)("patterns:" + ks<SRC>(), NAME(patterns), true);

static void NAME(wide)(mc::Ctx& ctx)   // all patterns of single rows/columns
{
    int n = ctx.tier(6, 10);
    size_t r = ctx.range(1, n, "length"), c = 1;
    if (ctx.flag("row")) std::swap(r, c);
    unsigned long bits = ctx.choose(1 << (r * c), "pattern");
    ctx.shard();
    all_conversions(ctx, pattern(r, c, bits));
    ctx.outcome("vector pattern");
}
static mc::Register NAME(rw)("vectors:" + ks<SRC>(), NAME(wide), true);

static void NAME(large)(mc::Ctx& ctx)
{
    static const std::vector<size_t> q{ 1, 4, 7, 16, 33, 65, 100 }, t{ 1, 4, 7, 8, 16, 17, 33, 64, 65, 100, 129, 257 };
    auto const& sz = ctx.thorough() ? t : q;
    size_t r = ctx.pick(sz), c = ctx.pick(sz);
    int w = ctx.choose(nb_structured, "pattern");
    ctx.shard();
    all_conversions(ctx, structured(r, c, w));
    ctx.outcome("large pattern");
}
static mc::Register NAME(rl)("large:" + ks<SRC>(), NAME(large), true);

// every assignment of magnitude classes to the elements
static void NAME(thresholds)(mc::Ctx& ctx)
{
    static const std::vector<double> cls{ 0.0, 0.25, std::nextafter(0.25, 1.0), double(std::nextafter(0.25f, 1.0f)), -0.25, 1.0, -4.0, 4.0, double(std::nextafter(4.0f, 5.0f)), double(std::nextafter(0.25f, 0.0f)) };
    static const std::vector<std::pair<size_t, size_t>> sh{ {1, 1}, {1, 3}, {3, 1} };
    static const std::vector<std::pair<size_t, size_t>> sht{ {1, 1}, {1, 3}, {3, 1}, {2, 2} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    Ref a(s.first, s.second);
    for (double& x : a.v) x = ctx.pick(cls, "magnitude class");
    ctx.shard();
    Source<SRC>::ch(ctx, a);
    ctx.outcome("thresholds");
}
static mc::Register NAME(rt)("thresholds:" + ks<SRC>(), NAME(thresholds), true);

static void NAME(thresholds_structured)(mc::Ctx& ctx)
{
    static const std::vector<double> cls{ 0.0, 0.25, 0.5, -0.25, 1.0, -4.0, 4.0, 5.0, -7.0, 0.125 };
    size_t r = ctx.range(0, 4, "rows"), c = ctx.range(0, 4, "columns");
    int rot = ctx.choose(10, "rotation"), mult = 1 + 2 * ctx.choose(4, "stride");
    ctx.shard();
    Source<SRC>::ch(ctx, make(r, c, [&](size_t i, size_t j) { return cls[((i * 5 + j) * mult + rot) % 10]; }));
    ctx.outcome("thresholds");
}
static mc::Register NAME(rts)("thresholds-structured:" + ks<SRC>(), NAME(thresholds_structured), true);

// ---- results of operations: union of the patterns, canonical; sparse product: nonzero elements only
namespace {
template <class T1, class T2, class P> void ops(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    std::string tag = ks<T1, P>() + "," + ks<T2, P>();
    ctx.note("sum:" + tag);
    S<T1, P> A = sparse<T1, P>(a); S<T2, P> B = sparse<T2, P>(b);
    std::vector<bool> un; for (size_t i = 0; i < a.v.size(); ++i) un.push_back(a.v[i] != 0.0 || b.v[i] != 0.0);
    if (un.empty()) un.push_back(false);
    verify(ctx, A + B, add(a, b), un, "+:" + tag);
    ctx.note("difference:" + tag);
    verify(ctx, A - B, add(a, b, -1.0), un, "-:" + tag);
    CHECK(bb::ref(A) == a && bb::ref(B) == b && canonical(A).empty() && canonical(B).empty(), "operands:" + tag, "operands changed");
    ctx.state(mc::Hash()(tag)(hash(a))(hash(b)));
}
template <class T1, class T2> void product(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    std::string tag = ks<T1, CM>() + "," + ks<T2, CM>();
    ctx.note("product:" + tag);
    S<T1> A = sparse<T1>(a); S<T2> B = sparse<T2>(b);
    verify(ctx, (A * B).template execute<Native>(), mul(a, b), std::vector<bool>(), "*:" + tag);
    ctx.state(mc::Hash()("*")(tag)(hash(a))(hash(b)));
}
double other(size_t i, size_t j) { return (i + j) % 2 ? -code(i, j) : code(i, j) + 1.0; }
}
#if MC_PART < 3
static void NAME(pairs)(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {0, 0}, {0, 3}, {2, 0}, {1, 1}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2} };
    auto s = ctx.pick(sh);
    int n = int(s.first * s.second);
    unsigned long x = ctx.choose(1 << n, "pattern of A");
    ctx.shard();
    unsigned long y = ctx.choose(1 << n, "pattern of B");
    Ref a = pattern(s.first, s.second, x), b = pattern(s.first, s.second, y, other);
#if MC_PART == 0
    ops<double, double, CM>(ctx, a, b); ops<double, double, RM>(ctx, a, b);
#elif MC_PART == 1
    ops<float, double, CM>(ctx, a, b); ops<double, float, RM>(ctx, a, b);
#else
    ops<float, float, CM>(ctx, a, b); ops<float, float, RM>(ctx, a, b);
#endif
    ctx.outcome("pair of patterns");
}
static mc::Register NAME(rpp)(std::string("operations:") + (MC_PART == 0 ? "dd" : MC_PART == 1 ? "mixed" : "ff"), NAME(pairs), true);
static void NAME(wide_operations)(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(4225, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    auto [p, q] = ctx.pick(big_patterns(ctx.thorough()), "patterns");
    Ref a = structured(r, c, p, wcode), b = structured(r, c, q, wother);
#if MC_PART == 0
    ops<double, double, CM>(ctx, a, b); ops<double, double, RM>(ctx, a, b);
#elif MC_PART == 1
    ops<float, double, CM>(ctx, a, b); ops<double, float, RM>(ctx, a, b);
#else
    ops<float, float, CM>(ctx, a, b); ops<float, float, RM>(ctx, a, b);
#endif
    ctx.outcome("wide operations");
}
static mc::Register NAME(rwo)(std::string("wide operations:") + (MC_PART == 0 ? "dd" : MC_PART == 1 ? "mixed" : "ff"), NAME(wide_operations), true);
#else
static void NAME(wide_products)(mc::Ctx& ctx)
{
    auto s = ctx.pick(big_triples(ctx.thorough()), "shape");
    ctx.shard();
    auto [p, q] = ctx.pick(big_patterns(ctx.thorough()), "patterns");
    Ref a = structured(s[0], s[1], p, wcode), b = structured(s[1], s[2], q, wother);
    product<double, double>(ctx, a, b); product<float, double>(ctx, a, b); product<double, float>(ctx, a, b); product<float, float>(ctx, a, b);
    ctx.outcome("wide product");
}
static mc::Register NAME(rwp)("wide products", NAME(wide_products), true);
static void NAME(products)(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> sh{ {0, 0, 0}, {0, 2, 2}, {2, 0, 2}, {2, 2, 0}, {1, 1, 1}, {2, 2, 2}, {1, 3, 2}, {3, 1, 2}, {2, 3, 1}, {1, 2, 3}, {3, 2, 1}, {2, 1, 3} };
    auto s = ctx.pick(sh);
    unsigned long x = ctx.choose(1 << (s[0] * s[1]), "pattern of A");
    ctx.shard();
    unsigned long y = ctx.choose(1 << (s[1] * s[2]), "pattern of B");
    Ref a = pattern(s[0], s[1], x), b = pattern(s[1], s[2], y, other);
    product<double, double>(ctx, a, b); product<float, double>(ctx, a, b); product<double, float>(ctx, a, b); product<float, float>(ctx, a, b);
    ctx.outcome("product");
}
static mc::Register NAME(rpr)("products", NAME(products), true);
#endif
