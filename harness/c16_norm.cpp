// C16: norms and occupations equal their definition for every matrix kind.
#define MC_MAIN
#include "checkers.h"
#include "blocked.h"
#include <BlasBooster/Core/DynamicMatrixFunctions.h>
using namespace bb;

namespace {

double norm_of(Ref const& a, int which)
{
    long double s = 0.0L;
    for (double x : a.v) { long double y = std::fabs((long double)x); if (which == 0) s += y; else if (which == 1) s += y * y; else s = std::max(s, y); }
    return double(which == 1 ? std::sqrt(s) : s);
}
bool near(double a, double b) { return std::fabs(a - b) <= 1e-13 * std::fabs(b); }
template <int N> struct NormNo; template <> struct NormNo<0> { typedef NormOne type; }; template <> struct NormNo<1> { typedef NormTwo type; }; template <> struct NormNo<2> { typedef NormMax type; };
static char const* const norm_names[] = { "one", "two", "max" };
template <int N, class O> using PN = Parameter<size_t, O, VariableSize, NoLeadingDimension, NoUnblockedDimension, typename NormNo<N>::type>;

template <int N, class M> void free_norm(mc::Ctx& ctx, M const& m, Ref const& a, std::string const& tag)
{
    double x = norm<typename NormNo<N>::type>(m), e = norm_of(a, N);
    CHECK(near(x, e), std::string("norm ") + norm_names[N] + ":" + tag, std::to_string(x) + " instead of " + std::to_string(e) + " for " + str(a));
}
template <class M> void free_norms(mc::Ctx& ctx, M const& m, Ref const& a, std::string const& tag) { free_norm<0>(ctx, m, a, tag); free_norm<1>(ctx, m, a, tag); free_norm<2>(ctx, m, a, tag); }

// member norm: computed norm and comparisons agree, whichever is asked first
template <int N, class M> void member_norm(mc::Ctx& ctx, M const& m, Ref const& a, std::string const& tag)
{
    double e = norm_of(a, N), x = M(m).getNorm();
    std::string t = std::string(norm_names[N]) + ":" + tag;
    CHECK(near(x, e), "getNorm " + t, std::to_string(x) + " instead of " + std::to_string(e) + " for " + str(a));
    double inf = std::numeric_limits<double>::infinity();
    for (double l : { x, std::nextafter(x, inf), std::nextafter(x, -inf), 0.0, -1.0, x / 2, x * 2, 1e300, inf, -inf }) {
        M f(m); CHECK(f.isNormLargerThan(l) == (x > l), "isNormLargerThan " + t, "limit " + std::to_string(l) + " norm " + std::to_string(x));
        M g(m); CHECK(g.isNormSmallerThan(l) == (x < l), "isNormSmallerThan " + t, "limit " + std::to_string(l) + " norm " + std::to_string(x));
        CHECK(g.isNormLargerThan(l) == (x > l) && f.isNormSmallerThan(l) == (x < l) && g.getNorm() == x, "comparison after comparison " + t, "limit " + std::to_string(l));
    }
    CHECK(bb::ref(m) == a, "changed by norm:" + t, str(a));
}

template <class T, Bound B, class M> void occ1(mc::Ctx& ctx, M const& m, Ref const& a, std::string const& tag, bool sparse_matrix, T l, T u)
{
    if (!valid<T>(B, l, u)) return;
    auto c = CheckerType<T, B>::make(l, u);
    if (sparse_matrix && accepts<T>(B, l, u, 0.0L)) return;   // absent elements of a sparse matrix are not counted
    size_t n = 0; for (double x : a.v) n += accepts<T>(B, l, u, std::fabs((long double)x));
    std::ostringstream w; w << bound_names[B] << " " << l << ".." << u << " of " << str(a);
    double o = a.v.empty() ? 0.0 : double(n) / double(a.v.size());
    CHECK(countDesiredElements(m, c) == n, "countDesiredElements:" + tag, std::to_string(countDesiredElements(m, c)) + " instead of " + std::to_string(n) + ": " + w.str());
    CHECK(m.getNbOfSignificantElements(c) == n, "getNbOfSignificantElements:" + tag, std::to_string(m.getNbOfSignificantElements(c)) + " instead of " + std::to_string(n) + ": " + w.str());
    CHECK(m.getOccupation(c) == o, "getOccupation:" + tag, std::to_string(m.getOccupation(c)) + " instead of " + std::to_string(o) + ": " + w.str());
    for (double v : { o, std::nextafter(o, 2.0), std::nextafter(o, -2.0), 0.0, 1.0, -1.0, 2.0 }) {
        CHECK(m.isOccupationLargerThan(v, c) == (o > v), "isOccupationLargerThan:" + tag, w.str());
        CHECK(m.isOccupationSmallerThan(v, c) == (o < v), "isOccupationSmallerThan:" + tag, w.str());
    }
}
template <class T, class M> void occ(mc::Ctx& ctx, M const& m, Ref const& a, std::string const& tag, bool sp)
{
    // values of the matrix themselves, and between them
    static const double levels[] = { 0.0, 0.5, 1.0, 3.0, 4.0, 8.0 };
    for (double l : levels) {
        occ1<T, EN>(ctx, m, a, tag, sp, T(l), T(0));
        for (double u : levels) { occ1<T, EI>(ctx, m, a, tag, sp, T(l), T(u)); occ1<T, II>(ctx, m, a, tag, sp, T(l), T(u)); occ1<T, EE>(ctx, m, a, tag, sp, T(l), T(u)); }
    }
}

template <Bound B> void dyn_occ(mc::Ctx& ctx, DynamicMatrix const& m, Ref const& a, std::string const& tag, bool sparse_matrix, double l, double u)
{
    auto c = CheckerType<double, B>::make(l, u);
    if (sparse_matrix && accepts<double>(B, l, u, 0.0L)) return;
    size_t n = 0; for (double x : a.v) n += accepts<double>(B, l, u, std::fabs((long double)x));
    double o = a.v.empty() ? 0.0 : double(n) / double(a.v.size());
    CHECK(getOccupation(m, c) == o, "dynamic getOccupation:" + tag, std::to_string(getOccupation(m, c)) + " instead of " + std::to_string(o) + ": " + str(a));
    for (double v : { o, std::nextafter(o, 2.0), std::nextafter(o, -2.0), 0.0, 1.0 })
        CHECK(isOccupationLargerThan(m, v, c) == (o > v), "dynamic isOccupationLargerThan:" + tag, str(a));
}

template <class T, class O> void kinds(mc::Ctx& ctx, Ref const& a, std::string const& o)
{
    std::string tn = tname<T>() + "," + o;
    typedef Parameter<size_t, O> P;
    auto d = dense<T, P>(a); auto s = sparse<T, P>(a);
    free_norms(ctx, d, a, "Dense<" + tn); free_norms(ctx, s, a, "Sparse<" + tn);
    member_norm<1>(ctx, d, a, "Dense<" + tn); member_norm<1>(ctx, s, a, "Sparse<" + tn);
    member_norm<0>(ctx, dense<T, PN<0, O>>(a), a, "Dense<" + tn); member_norm<2>(ctx, dense<T, PN<2, O>>(a), a, "Dense<" + tn);
    member_norm<0>(ctx, sparse<T, PN<0, O>>(a), a, "Sparse<" + tn); member_norm<2>(ctx, sparse<T, PN<2, O>>(a), a, "Sparse<" + tn);
    occ<T>(ctx, d, a, "Dense<" + tn, false); occ<T>(ctx, s, a, "Sparse<" + tn, true);
}

// the same matrix through every kind
void check(mc::Ctx& ctx, Ref const& a, bool multi)
{
    ctx.note("kinds");
    kinds<double, ColumnMajor>(ctx, a, "CM"); kinds<double, RowMajor>(ctx, a, "RM"); kinds<float, ColumnMajor>(ctx, a, "CM"); kinds<float, RowMajor>(ctx, a, "RM");
    if (a.nnz() == 0) {
        Z z(a.r, a.c);
        free_norms(ctx, z, a, "Zero"); member_norm<1>(ctx, z, a, "Zero");
        CHECK(z.getNbOfSignificantElements() == 0 && z.getOccupation() == 0.0 && !z.isOccupationLargerThan(0.0) && z.isOccupationSmallerThan(0.1) && !z.isOccupationSmallerThan(0.0), "occupation:Zero", str(a));
    }
    for (int t = 0; t < 7; ++t) {
        if (t == 0 && a.nnz()) continue;
        if ((t == 4 || t == 5) && !multi) continue;
        ctx.note(dyn_names[t]);
        DynamicMatrix m = dynamic(t, a);
        free_norms(ctx, m, a, std::string("dynamic ") + dyn_names[t]);
        if (t == 4) free_norms(ctx, *cast<MSS>(m), a, dyn_names[t]);
        if (t == 5) free_norms(ctx, *cast<MSD>(m), a, dyn_names[t]);
        if (t != 4 && t != 5) {
            double x = getNorm(m);
            CHECK(near(x, norm_of(a, 1)), std::string("dynamic getNorm:") + dyn_names[t], str(a));
            for (double l : { x, std::nextafter(x, 1e300), std::nextafter(x, -1e300), 0.0 })
                CHECK(isNormLargerThan(m, l) == (x > l), std::string("dynamic isNormLargerThan:") + dyn_names[t], str(a));
            CHECK(getNbRows(m) == a.r && getNbColumns(m) == a.c, std::string("dynamic dimensions:") + dyn_names[t], str(a));
            if (t) {
                bool sp = t == 1 || t == 3;
                for (double l : { 0.0, 1.0, 3.0 }) { dyn_occ<EN>(ctx, m, a, dyn_names[t], sp, l, 0); dyn_occ<EI>(ctx, m, a, dyn_names[t], sp, l, 4.0); dyn_occ<II>(ctx, m, a, dyn_names[t], sp, l, 3.0); dyn_occ<EE>(ctx, m, a, dyn_names[t], sp, l, 8.0); }
            } else CHECK(getOccupation(m, AbsoluteValueRangeChecker<double>(0.0)) == 0.0 && !isOccupationLargerThan(m, 0.0, AbsoluteValueRangeChecker<double>(0.0)) && isOccupationLargerThan(m, -1.0, AbsoluteValueRangeChecker<double>(0.0)), "dynamic occupation:Zero", str(a));
        }
        CHECK(bb::ref(m) == a, std::string("changed:") + dyn_names[t], str(a));
    }
    ctx.state(mc::Hash()("kinds")(hash(a)));
    ctx.outcome(a.v.empty() ? "empty" : a.nnz() == 0 ? "zero" : a.nnz() == a.v.size() ? "full" : "partial");
}

double value(int k) { static const double v[] = { 0.0, 1.0, -3.0, 4097.0, 0.5, -8.0, 1.0 / 3.0, -0.1 }; return v[k]; }

// every assignment of values to small matrices
void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> q{ {0, 0}, {0, 3}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2} }, t{ {0, 0}, {0, 3}, {2, 0}, {1, 1}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2} };
    auto sz = ctx.pick(ctx.thorough() ? t : q, "shape");
    Ref a(sz.first, sz.second);
    int n = ctx.thorough() && a.v.size() < 6 ? 6 : 4;
    for (size_t k = 0; k < a.v.size(); ++k) { a.v[k] = value(ctx.choose(n, "value")); if (k == 0) ctx.shard(); }
    if (a.v.empty()) ctx.shard();
    check(ctx, a, true);
}
mc::Register r1("patterns", patterns, true);

// every nonzero pattern of 3x3, structured patterns of larger shapes
void shapes(mc::Ctx& ctx)
{
    int n = ctx.tier(5, 7);
    size_t r = ctx.range(0, n, "rows"), c = ctx.range(0, n, "columns");
    ctx.shard();
    check(ctx, structured(r, c, ctx.choose(nb_structured, "pattern")), true);
}
mc::Register r2("shapes", shapes, true);
void wide(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(2200, 20000), false); size_t r = shape.first, c = shape.second;
    ctx.shard();
    static const std::vector<int> w{ 0, 4, 5, 7 };
    int p = ctx.pick(w, "pattern"), f = ctx.choose(2, "values");
    // values rising towards the end, so that the largest one is the last, or small ones whose checkers have limits among them
    check(ctx, structured(r, c, p, f ? [](size_t i, size_t j) { return double(i + j + 1) * ((i + j) % 2 ? -0.5 : 0.5); } : wcode), true);
}
mc::Register r6("wide", wide, true);
void all33(mc::Ctx& ctx)
{
    unsigned long bits = ctx.choose(512, "pattern");
    ctx.shard();
    check(ctx, pattern(3, 3, bits), true);
}
mc::Register r3("all33", all33, true);

// windows of a parent: the norm and occupation of the window only
void windows(mc::Ctx& ctx)
{
    size_t R = ctx.range(1, ctx.tier(3, 5), "rows"), C = ctx.range(1, ctx.tier(4, 5), "columns");
    ctx.shard();
    size_t r = ctx.range(0, R, "window rows"), c = ctx.range(0, C, "window columns"), r0 = ctx.range(0, R - r, "row offset"), c0 = ctx.range(0, C - c, "column offset");
    Ref a = structured(R, C, ctx.flag("sparse") ? 3 : 0), w = make(r, c, [&](size_t i, size_t j) { return a(r0 + i, c0 + j); });
    ctx.note("window");
    auto run = [&](auto const& parent, std::string const& tag) {
        typedef typename std::decay<decltype(parent)>::type M; typedef typename M::value_type T;
        Matrix<Dense, T, SubCM> v(parent, r, c, r0, c0);
        free_norms(ctx, v, w, tag); 
        double x = v.getNorm();
        CHECK(near(x, norm_of(w, 1)), "getNorm:" + tag, str(w));
        CHECK(v.isNormLargerThan(x / 2) == (x > x / 2) && !v.isNormLargerThan(x) && !v.isNormSmallerThan(x) && v.isNormSmallerThan(x + 1), "comparison:" + tag, str(w));
        occ<T>(ctx, v, w, tag, false);
        CHECK(bb::ref(parent) == a, "changed:" + tag, str(a));
    };
    run(dense<double>(a), "window<double>"); run(dense<float>(a), "window<float>");
    ctx.state(mc::Hash()("window")(hash(a))(r)(c)(r0)(c0));
    ctx.outcome(w.v.empty() ? "empty window" : "window");
}
mc::Register r4("windows", windows, true);

// blocked matrices of every type assignment
void blocks(mc::Ctx& ctx)
{
    static const std::vector<std::pair<Part, Part>> sh{ {{1}, {2}}, {{2, 1}, {3}}, {{2}, {1, 3}}, {{0}, {2}}, {{1, 2}, {2, 1}} };
    auto ps = ctx.pick(sh);
    Part const& rp = ps.first; Part const& cp = ps.second;
    double scale = ctx.flag("fractions") ? 1.0 / 3.0 : 1.0;   // types with single precision parts hold exactly representable values only
    Ref a = make(total(rp), total(cp), [scale](size_t i, size_t j) { return (i + j) % 4 == 2 ? 0.0 : code(i, j) * scale; });
    BlockedDenseMatrix b(rp.size(), cp.size(), a.r, a.c);
    for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) {
        static const int exact[] = { 0, 3, 6 };
        int t = scale == 1.0 ? ctx.choose(7, "block type") : exact[ctx.choose(3, "block type")];
        if (I + J == 0) ctx.shard();
        Ref w = window(a, start(rp, I), start(cp, J), rp[I], cp[J]);
        if (t == 0) { w = Ref(w.r, w.c); for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) a(start(rp, I) + i, start(cp, J) + j) = 0.0; }
        b(I, J) = dynamic(t, w);
    }
    ctx.note("blocked");
    free_norms(ctx, b, a, "blocked");
    CHECK(near(b.getNorm(), norm_of(a, 1)) && !b.isNormLargerThan(b.getNorm()) && !b.isNormSmallerThan(b.getNorm()), "getNorm:blocked", str(a));
    CHECK(bb::ref(D<double>(b)) == a, "changed:blocked", str(a));
    ctx.state(mc::Hash()("blocked")(hash(a))(ctx.prefix));
    ctx.outcome("blocked");
}
mc::Register r5("blocks", blocks, true);

} // namespace
