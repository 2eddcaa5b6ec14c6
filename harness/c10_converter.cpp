// C10: MatrixConverter picks the first admissible type and keeps every significant element.
#define MC_MAIN
#include "bb.h"
#include <BlasBooster/Core/MatrixConverter.h>
#include <array>
using namespace bb;

namespace {

// the occupation limits, as [type][0: above the double threshold, 1: above the float threshold]
struct Limits { std::array<std::array<double, 2>, 7> l; };
Limits const defaults{ {{ {{0.0, 0.0}}, {{0.2, 0.0}}, {{1.0, 0.0}}, {{0.2, 0.2}}, {{0.4, 0.2}}, {{1.0, 0.2}}, {{1.0, 1.0}} }} };
Limits const half{ {{ {{0.0, 0.0}}, {{0.5, 0.0}}, {{1.0, 0.0}}, {{0.5, 0.5}}, {{1.0, 0.5}}, {{1.0, 0.5}}, {{1.0, 1.0}} }} };
Limits const quarter{ {{ {{0.0, 0.0}}, {{0.25, 0.0}}, {{0.75, 0.0}}, {{0.25, 0.25}}, {{0.5, 0.25}}, {{0.75, 0.5}}, {{1.0, 1.0}} }} };
Limits const closed{ {{ {{0.0, 0.0}}, {{0.0, 0.0}}, {{0.0, 0.0}}, {{0.0, 0.0}}, {{0.0, 0.0}}, {{0.0, 0.0}}, {{0.0, 0.0}} }} };

Threshold threshold(double d, double f, Limits const& x)
{
    return Threshold(ThresholdSettings()
        .set_significanceThresholdDoublePrecision(d).set_significanceThresholdSinglePrecision(f)
        .set_occupationThresholdMatrixZeroDoublePrecision(x.l[0][0]).set_occupationThresholdMatrixZeroSinglePrecision(x.l[0][1])
        .set_occupationThresholdMatrixSparseFloatDoublePrecision(x.l[1][0]).set_occupationThresholdMatrixSparseFloatSinglePrecision(x.l[1][1])
        .set_occupationThresholdMatrixDenseFloatDoublePrecision(x.l[2][0]).set_occupationThresholdMatrixDenseFloatSinglePrecision(x.l[2][1])
        .set_occupationThresholdMatrixSparseDoubleDoublePrecision(x.l[3][0]).set_occupationThresholdMatrixSparseDoubleSinglePrecision(x.l[3][1])
        .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(x.l[4][0]).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(x.l[4][1])
        .set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(x.l[5][0]).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(x.l[5][1])
        .set_occupationThresholdMatrixDenseDoubleDoublePrecision(x.l[6][0]).set_occupationThresholdMatrixDenseDoubleSinglePrecision(x.l[6][1]));
}

int expected_type(Ref const& a, double d, double f, Limits const& x)
{
    size_t nd = 0, nf = 0;
    for (double v : a.v) { nd += std::abs(v) > d; nf += std::abs(v) > f; }
    double od = a.v.empty() ? 0.0 : double(nd) / double(a.v.size()), of = a.v.empty() ? 0.0 : double(nf) / double(a.v.size());
    for (int t = 0; t < 7; ++t) if (od <= x.l[t][0] && of <= x.l[t][1]) return t;
    return -1;   // nothing admissible
}

void verify(mc::Ctx& ctx, DynamicMatrix const& m, Ref const& a, double d, double f, Limits const& x, std::string const& tag)
{
    int t = expected_type(a, d, f, x);
    auto describe = [&] { std::ostringstream o; o.precision(17); o << str(a) << " thresholds " << d << " " << f; return o.str(); };
    CHECK(bool(m), "null:" + tag, "no matrix");
    CHECK(int(m->getTypeIndex()) == t, "type:" + tag, std::string("converted to type ") + (m->getTypeIndex() < 7 ? dyn_names[m->getTypeIndex()] : "?") + " instead of " + dyn_names[t] + ": " + describe());
    std::string n = tag + ":" + dyn_names[t];
    CHECK(canonical(m).empty(), "canonical:" + n, canonical(m));
    Ref y = bb::ref(m);
    CHECK(y.r == a.r && y.c == a.c && getSize(m) == a.r * a.c, "dim:" + n, "converted matrix is " + std::to_string(y.r) + "x" + std::to_string(y.c));
    Ref p1 = t == 4 ? bb::ref(cast<MSS>(m)->getMatrix1()) : t == 5 ? bb::ref(cast<MSD>(m)->getMatrix1()) : y;
    Ref p2 = t == 4 ? bb::ref(cast<MSS>(m)->getMatrix2()) : t == 5 ? bb::ref(cast<MSD>(m)->getMatrix2()) : Ref(a.r, a.c);
    for (size_t i = 0; i < a.v.size(); ++i) {
        double e = a.v[i], r = y.v[i], fe = double(float(e));
        auto what = [&] { return "element " + std::to_string(i) + " is " + std::to_string(r) + ": " + describe(); };
        CHECK(p1.v[i] == 0.0 || p2.v[i] == 0.0, "twice:" + n, "both parts hold " + what());
        if (std::abs(e) > f) {
            if (t >= 3) CHECK(r == e, "exact:" + n, "not exact: " + what());
            else if (t == 2) CHECK(r == fe, "float:" + n, what());
        } else if (std::abs(e) > d) {
            if (t != 0) CHECK(r == e || r == fe, "significant:" + n, "lost: " + what());
        } else CHECK(r == 0.0 || r == e || r == fe, "insignificant:" + n, what());
    }
    ctx.state(mc::Hash()(n)(hash(a))(d)(f));
    ctx.outcome(n);
}

template <class Src> void convert(mc::Ctx& ctx, Src const& src, Ref const& a, double d, double f, Limits const& x, std::string const& tag)
{
    ctx.note(tag);
    DynamicMatrix m;
    bool rejected = false;
    try { m = MatrixConverter()(src, threshold(d, f, x)); }
    catch (std::exception const&) { rejected = true; }
    if (expected_type(a, d, f, x) < 0) {
        CHECK(rejected, "accepted:" + tag, "no type is admissible, but the matrix was converted");
        ctx.outcome(tag + " rejected");
        return;
    }
    CHECK(!rejected, "rejected:" + tag, "a type is admissible, but the conversion fails");
    verify(ctx, m, a, d, f, x, tag);
    CHECK(bb::ref(src) == a, "source:" + tag, "the source changed");
}

void kinds(mc::Ctx& ctx, Ref const& a, double d, double f, Limits const& x)
{
    { auto s = dense<double>(a); convert(ctx, s, a, d, f, x, "D<double>"); }
    { Ref b = round_to_float(a); auto s = dense<float>(b); convert(ctx, s, b, d, f, x, "D<float>"); }
    { auto s = dense<double, RM>(a); convert(ctx, s, a, d, f, x, "D<double,RM>"); }
    {   // window of a larger matrix whose other elements are all large
        Ref p = make(a.r + 2, a.c + 2, [&](size_t i, size_t j) { return i >= 1 && j >= 1 && i <= a.r && j <= a.c ? a(i - 1, j - 1) : 77.0; });
        auto parent = dense<double>(p);
        D<double, SubCM> s(parent, a.r, a.c, 1, 1);
        convert(ctx, s, a, d, f, x, "window");
        CHECK(bb::ref(parent) == p, "parent", "the parent of the window changed");
    }
}

// every assignment of magnitude classes
void classes(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {0, 0}, {0, 3}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2} };
    static const std::vector<std::pair<size_t, size_t>> sht{ {0, 0}, {0, 3}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {5, 1} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    static const std::vector<std::pair<double, double>> th{ {1e-10, 1e-5}, {std::numeric_limits<double>::epsilon(), std::numeric_limits<float>::epsilon()}, {0.0, 0.25}, {0.5, 0.50000000000000011102} };
    auto t = ctx.pick(th);
    int l = ctx.choose(3, "limits");
    ctx.shard();
    double d = t.first, f = t.second;
    std::vector<double> cl{ 0.0, d, -std::nextafter(d, 1.0), (d + f) * 0.4999, -f, std::nextafter(f, 1.0), -1.0 / 3.0 - f };
    if (d > 0) cl.push_back(std::nextafter(d, 0.0));
    if (ctx.thorough()) { cl.push_back(1e30); cl.push_back(-(2.0 + 1e-9)); }
    Ref a(s.first, s.second);
    for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = cl[ctx.choose(int(cl.size()), "class")];
    kinds(ctx, a, d, f, l == 0 ? defaults : l == 1 ? half : quarter);
}
mc::Register r1("classes", classes, true);

// every single limit changed: the limit of one type and precision must only affect that type
void limits(mc::Ctx& ctx)
{
    int base = ctx.choose(3, "base"), which = ctx.choose(14, "limit"), v = ctx.choose(5, "value");
    ctx.shard();
    Limits x = base == 0 ? closed : base == 1 ? half : quarter;
    x.l[which / 2][which % 2] = v * 0.25;
    Ref a(2, 2);
    for (double& e : a.v) { static const double cl[] = { 0.0, 1.0 / 3.0 * 1e-3, -1.0 / 3.0 }; e = cl[ctx.choose(3, "class")]; }
    kinds(ctx, a, 1e-6, 1e-2, x);
}
mc::Register r2("limits", limits, true);

// default settings: every number of medium and large elements in matrices of 5, 10, 12, 15 and 20 elements
void counts(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {1, 5}, {5, 2}, {3, 4}, {5, 3}, {4, 5} };
    auto s = ctx.pick(sh);
    size_t n = s.first * s.second;
    size_t medium = ctx.range(0, int(n), "medium"), large = ctx.range(0, int(n - medium), "large");
    ctx.shard();
    Ref a(s.first, s.second);
    for (size_t i = 0; i < medium + large; ++i) a.v[(i * 7 + 3) % n] = (i < medium ? 1.0 / 3.0 * 1e-8 : 1.0 / 3.0) * (i % 2 ? -1.0 : 1.0);
    std::set<size_t> distinct; for (size_t i = 0; i < n; ++i) distinct.insert((i * 7 + 3) % n);
    CHECK(distinct.size() == n, "harness", "positions are not distinct");
    kinds(ctx, a, std::numeric_limits<double>::epsilon(), std::numeric_limits<float>::epsilon(), defaults);
    {   // the default thresholds are those
        auto src = dense<double>(a);
        verify(ctx, MatrixConverter()(src, Threshold()), a, std::numeric_limits<double>::epsilon(), std::numeric_limits<float>::epsilon(), defaults, "default threshold");
    }
}
mc::Register r3("counts", counts, true);

// large matrices: the significant elements spread, striped, or one of them at either end
void wide(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(4225, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    int p = ctx.choose(nb_structured + 3, "large elements"), q = ctx.choose(4, "the others");
    Limits const& x = ctx.flag("limits") ? quarter : defaults;
    const double d = 1e-10, f = 1e-5;
    Ref on = p < nb_structured ? structured(r, c, p, [](size_t, size_t) { return 1.0; }) : make(r, c, [&](size_t i, size_t j) { size_t k = i * c + j; return double(p == nb_structured ? k == 0 : p == nb_structured + 1 ? k + r * c / 4 + 1 > r * c : k % 5 == 0); });
    Ref a = make(r, c, [&](size_t i, size_t j) { return on(i, j) != 0.0 ? code(i, j) / 3.0 : q == 0 ? 0.0 : q == 1 ? code(i, j) * 1e-9 : q == 2 ? ((i + j) % 6 == 0 ? -1e-7 / 3.0 : 0.0) : d; });
    kinds(ctx, a, d, f, x);
}
mc::Register r6("wide", wide, true);

// one source converted with several thresholds after each other, and changed in between by assignment
void histories(mc::Ctx& ctx)
{
    static const std::vector<std::pair<double, double>> th{ {1e-10, 1e-5}, {1e-5, 1e-2}, {0.0, 1e-10}, {1e-2, 1.0} };
    Ref a(1, 3), b(1, 3);
    static const double cl[] = { 0.0, 1e-7, 1e-3 / 3, 1.0 / 3 };
    for (double& e : a.v) e = cl[ctx.choose(4, "class")];
    ctx.shard();
    b.v = { a.v[2] * 3.0, 0.5, a.v[0] };
    auto src = dense<double>(a);
    Ref cur = a;
    for (int step = 0, n = ctx.tier(3, 4); step < n; ++step) {
        int t = ctx.choose(int(th.size()) + 1, "threshold or assignment");
        if (t == int(th.size())) { cur = cur == a ? b : a; src = dense<double>(cur); continue; }
        convert(ctx, src, cur, th[t].first, th[t].second, half, "history");
    }
}
mc::Register r4("histories", histories, true);

// reading the settings back
void settings(mc::Ctx& ctx)
{
    Limits x;
    for (int t = 0; t < 7; ++t) for (int p = 0; p < 2; ++p) x.l[t][p] = 0.01 * (1 + 2 * t + p);
    Threshold h = threshold(0.125, 0.5, x);
    Threshold c; c = h; c = c;
    for (Threshold const& q : { h, c, Threshold(h) }) {
        CHECK((q.getSignificanceThreshold<double>() == 0.125 && q.getSignificanceThreshold<float>() == 0.5), "significance", "significance threshold");
        auto is = [&](int t, double a, double b) { CHECK(a == x.l[t][0] && b == x.l[t][1], std::string("limit:") + dyn_names[t], std::to_string(a) + " " + std::to_string(b)); };
        is(0, q.getOccupationThreshold<Z, double>(), q.getOccupationThreshold<Z, float>());
        is(1, q.getOccupationThreshold<S<float>, double>(), q.getOccupationThreshold<S<float>, float>());
        is(2, q.getOccupationThreshold<D<float>, double>(), q.getOccupationThreshold<D<float>, float>());
        is(3, q.getOccupationThreshold<S<double>, double>(), q.getOccupationThreshold<S<double>, float>());
        is(4, q.getOccupationThreshold<MSS, double>(), q.getOccupationThreshold<MSS, float>());
        is(5, q.getOccupationThreshold<MSD, double>(), q.getOccupationThreshold<MSD, float>());
        is(6, q.getOccupationThreshold<D<double>, double>(), q.getOccupationThreshold<D<double>, float>());
    }
    Threshold s(ThresholdSettings().set_min_block_size(3).set_max_block_size(11));
    CHECK(s.get_min_block_size() == 3 && s.get_max_block_size() == 11, "block size", "block size settings");
    ctx.outcome("settings");
}
mc::Register r5("settings", settings);

} // namespace
