// C30: comparison of matrices and storages.
#define MC_MAIN
#include "bb.h"
using namespace bb;

namespace {

const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

/// what "equal within numerical accuracy" has to mean; tolerance 1e-12, with single precision 1e-4, none for integers
bool same(double a, double b, double tol)
{
    if (a != a || b != b) return false;
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::abs((long double)a - b) <= tol;
}
template <class T> double tol() { return std::is_same<T, double>::value ? 1e-12 : std::is_same<T, float>::value ? 1e-4 : 0.0; }
template <class A, class B> double tol2() { return std::max(tol<A>(), tol<B>()); }

template <class A, class B> void scalar(mc::Ctx& ctx)
{
    typedef std::numeric_limits<A> L;
    std::vector<double> pool{ 0, 1, 2, 77 };
    bool integral = std::is_integral<A>::value;
    if (!integral) for (double x : { -0.0, -1.0, inf, -inf, nan_, 1 + 0.25 * tol2<A, B>(), 1 + 4 * tol2<A, B>(), 0.25 * tol2<A, B>(), -0.25 * tol2<A, B>(), 4 * tol2<A, B>(), -4 * tol2<A, B>(), 1e-30, 1e30, -1e30, 0.5, 3.4e38, 1.0 + 1e-6 }) pool.push_back(x);
    std::vector<A> as; std::vector<B> bs;
    for (double x : pool) { as.push_back(A(x)); bs.push_back(B(x)); }
    if (integral) { as.push_back(L::max()); as.push_back(L::min()); as.push_back(A(-1)); bs.push_back(std::numeric_limits<B>::max()); bs.push_back(std::numeric_limits<B>::min()); bs.push_back(B(-1)); }
    A a = as[ctx.choose(int(as.size()), "a")]; B b = bs[ctx.choose(int(bs.size()), "b")];
    bool want = integral ? a == A(b) : same(double(a), double(b), tol2<A, B>());
    CHECK(equalWithinNumericalAccuracy(a, b) == want, "scalars", std::to_string(double(a)) + " and " + std::to_string(double(b)) + (want ? " are" : " are not") + " equal");
    CHECK(equalWithinNumericalAccuracy(b, a) == want, "scalars:symmetry", std::to_string(double(a)) + " and " + std::to_string(double(b)));
    ctx.outcome(want ? "equal" : "unequal"); ctx.state(mc::Hash()(double(a))(double(b)));
}
mc::Register s0("scalar double double", scalar<double, double>), s1("scalar double float", scalar<double, float>), s2("scalar float double", scalar<float, double>), s3("scalar float float", scalar<float, float>),
    s4("scalar int", scalar<int, int>), s5("scalar unsigned", scalar<unsigned, unsigned>), s6("scalar unsigned long", scalar<unsigned long, unsigned long>);

template <class T> Ref rounded(Ref a) { for (double& x : a.v) x = T(x); return a; }
bool same(Ref const& a, Ref const& b, double tol)
{
    if (a.r != b.r || a.c != b.c) return false;
    for (size_t i = 0; i < a.v.size(); ++i) if (!same(a.v[i], b.v[i], tol)) return false;
    return true;
}
/// bit for bit, as NaN differs from itself
bool untouched(Ref const& a, Ref const& b) { return a.r == b.r && a.c == b.c && (a.v.empty() || std::memcmp(a.v.data(), b.v.data(), a.v.size() * sizeof(double)) == 0); }

template <class A, class B> void verdict(mc::Ctx& ctx, A const& a, B const& b, bool want, std::string const& tag, std::string const& what)
{
    CHECK(a.equal(b) == want, "equal:" + tag, what + (want ? " are equal" : " differ"));
    CHECK(b.equal(a) == want, "symmetry:" + tag, what);
    CHECK(a.notEqual(b) == !want && b.notEqual(a) == !want, "negation:" + tag, what);
    ctx.outcome(tag + (want ? " equal" : " unequal"));
}

template <class A, class B> void dense_pairs(mc::Ctx& ctx)
{
    typedef typename A::value_type TA; typedef typename B::value_type TB;
    const double t = tol2<TA, TB>();
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    int top = ctx.tier(3, 4);
    size_t r = ctx.range(0, top, "rows"), c = ctx.range(0, top, "columns"), r2 = ctx.range(0, top, "rows2");
    ctx.shard();
    size_t c2 = ctx.range(0, top, "columns2");
    // equal content in the common part, so that only the shape tells them apart
    int fill = ctx.choose(3, "fill");
    auto f = [&](size_t i, size_t j) { return fill == 0 ? 0.0 : fill == 1 ? 1.0 : code(i, j); };
    Ref x = make(r, c, f), y = make(r2, c2, f);
    if (r == r2 && c == c2 && r * c) {
        int at = ctx.choose(int(r * c) + 1, "at");
        if (at) {
            static const std::vector<std::pair<double, double>> kinds{ { nan_, nan_ }, { 1, nan_ }, { inf, inf }, { inf, -inf }, { inf, 1 }, { 0.0, -0.0 }, { 5, 6 }, { 5, -5 } };
            int k = ctx.choose(int(kinds.size()) + 3, "kind");
            double& u = x.v[at - 1]; double& v = y.v[at - 1];
            if (k < int(kinds.size())) { u = kinds[k].first; v = kinds[k].second; }
            else if (k == int(kinds.size())) { u = 0; v = 0.25 * t; }
            else if (k == int(kinds.size()) + 1) { u = 0; v = 4 * t; }
            else { u = -4 * t; v = 0; }
        }
    }
    A a(dense<TA, typename A::parameter>(x)); B b(dense<TB, typename B::parameter>(y));
    Ref xa = rounded<TA>(x), yb = rounded<TB>(y);
    bool want = same(xa, yb, t);
    verdict(ctx, a, b, want, tag, str(x) + " and " + str(y));
    CHECK(untouched(bb::ref(a), xa) && untouched(bb::ref(b), yb), "operands changed:" + tag, "");
    // with itself
    CHECK(a.equal(a) == same(xa, xa, t), "itself:" + tag, str(x));
    ctx.state(mc::Hash()(tag)(hash(x).h)(hash(y).h));
}

/// all pairs of small matrices of two or three different values
template <class A, class B> void all_pairs(mc::Ctx& ctx)
{
    typedef typename A::value_type TA; typedef typename B::value_type TB;
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    static const std::vector<std::pair<size_t, size_t>> shapes{ { 1, 2 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 1, 4 } };
    auto sh = ctx.pick(shapes, "shape");
    auto sh2 = ctx.flag("turned") ? std::make_pair(sh.second, sh.first) : sh;
    Ref x(sh.first, sh.second), y(sh2.first, sh2.second);
    int n = x.v.size() <= 4 && ctx.thorough() ? 3 : 2;
    for (double& e : x.v) e = ctx.choose(n, "a");
    ctx.shard();
    for (double& e : y.v) e = ctx.choose(n, "b");
    verdict(ctx, A(dense<TA, typename A::parameter>(x)), B(dense<TB, typename B::parameter>(y)), same(x, y, 0), "all " + tag, str(x) + " and " + str(y));
    ctx.state(mc::Hash()(tag)(hash(x).h)(hash(y).h));
}
/// large matrices which differ in one place, or not at all
template <class A, class B> void wide(mc::Ctx& ctx)
{
    typedef typename A::value_type TA; typedef typename B::value_type TB;
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    auto shape = wide_shape(ctx, ctx.tier(2200, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    const size_t n = r * c; const size_t at[] = { 0, n - 1, n / 2, n > 1 ? n - 2 : 0, c - 1, n - c, std::min(n - 1, size_t(64)), n * 3 / 4 };
    int p = ctx.choose(9, "at");
    Ref x = make(r, c, code), y = x;
    if (p) { double v[] = { x.v[at[p - 1]] + 1, -x.v[at[p - 1]], nan_ }; y.v[at[p - 1]] = v[ctx.choose(3, "other")]; }
    A a(dense<TA, typename A::parameter>(x)); B b(dense<TB, typename B::parameter>(y));
    verdict(ctx, a, b, p == 0, "wide " + tag, std::to_string(r) + "x" + std::to_string(c) + " which differ at " + std::to_string(p ? at[p - 1] : n));
    // as the whole of a larger matrix's window
    D<double> parent(dense<double, CM>(make(r + 1, c + 2, [&](size_t i, size_t j) { return i < r && j < c ? y(i, j) : 55.0; })));
    Matrix<Dense, double, SubCM> v(parent, r, c, 0, 0);
    verdict(ctx, v, a, p == 0, "wide window,matrix", std::to_string(r) + "x" + std::to_string(c));
    ctx.state(mc::Hash()("wide")(tag)(r)(c)(p));
}
typedef D<double> DD; typedef D<float> DF; typedef D<double, RM> RD; typedef D<float, RM> RF;
#define BOTH(n, A, B) mc::Register p##n("dense " #A "," #B, dense_pairs<A, B>, true), q##n("all dense " #A "," #B, all_pairs<A, B>, true), w##n("wide " #A "," #B, wide<A, B>, true);
BOTH(0, DD, DD) BOTH(1, DD, DF) BOTH(2, DF, DF) BOTH(3, RD, RD) BOTH(4, DD, RD) BOTH(5, DF, RD) BOTH(6, DD, RF) BOTH(7, RF, RF)

/// windows of a matrix against windows and matrices of their own
SCENARIO_SHARDED(windows)
{
    typedef Matrix<Dense, double, SubCM> V;
    const size_t R = ctx.tier(3, 4), C = ctx.tier(4, 4);
    Ref p = make(R, C, [](size_t i, size_t j) { return double((i + j) % 2); });
    size_t r = ctx.range(0, int(R), "rows"), c = ctx.range(0, int(C), "columns"), r0 = ctx.range(0, int(R - r), "row"), c0 = ctx.range(0, int(C - c), "column");
    ctx.shard();
    size_t r2 = ctx.range(0, int(R), "rows2"), c2 = ctx.range(0, int(C), "columns2"), r1 = ctx.range(0, int(R - r2), "row2"), c1 = ctx.range(0, int(C - c2), "column2");
    bool big = ctx.flag("outlier");
    if (big) p(R - 1, C - 1) = 9;
    DD m(dense<double, CM>(p)), m2(m);
    V v(m, r, c, r0, c0), w(m2, r2, c2, r1, c1);
    Ref x = make(r, c, [&](size_t i, size_t j) { return p(r0 + i, c0 + j); }), y = make(r2, c2, [&](size_t i, size_t j) { return p(r1 + i, c1 + j); });
    bool want = same(x, y, 1e-12);
    std::string what = str(x) + " and " + str(y);
    verdict(ctx, v, w, want, "windows", what);
    verdict(ctx, v, dense<double, CM>(y), want, "window and matrix", what);
    verdict(ctx, v, dense<float, RM>(y), want, "window and row-major matrix", what);
    CHECK(bb::ref(m) == p && bb::ref(m2) == p, "windows:operands changed", "");
    ctx.state(mc::Hash()(r)(c)(r0)(c0)(r2)(c2)(r1)(c1)(big));
}

/// matrices of one storage with excess columns or rows (leading dimension): the excess does not count
SCENARIO_SHARDED(external)
{
    size_t r = ctx.range(1, 3, "rows"), c = ctx.range(1, 3, "columns");
    ctx.shard();
    double buf[9], buf2[9];
    for (int i = 0; i < 9; ++i) buf[i] = buf2[i] = i + 1;
    int at = ctx.choose(10, "at"); if (at) buf2[at - 1] = -1;
    DD a(r, c, buf), b(r, c, buf2); RD d(r, c, buf2);
    bool want = !at || size_t(at) > r * c;
    verdict(ctx, a, b, want, "external memory", "");
    Ref y = bb::ref(d), x = bb::ref(a);
    verdict(ctx, a, d, same(x, y, 1e-12), "external memory of different orientation", str(x) + " and " + str(y));
    ctx.state(mc::Hash()(r)(c)(at));
}

/// operator==: the very same memory with the same shape
SCENARIO_SHARDED(identity)
{
    size_t r = ctx.range(0, 3, "rows"), c = ctx.range(0, 3, "columns"), r2 = ctx.range(0, 3, "rows2"), c2 = ctx.range(0, 3, "columns2");
    ctx.shard();
    if (r * c == 0 || r2 * c2 == 0) throw mc::Prune();
    double buf[9] = {}, other[9] = {};
    DD a(r, c, buf), b(r2, c2, ctx.flag("same memory") ? buf : other);
    bool want = a.getDataPointer() == b.getDataPointer() && r == r2 && c == c2;
    CHECK((a == b) == want && (b == a) == want, "identity", "same memory and shape compare different, or the other way round");
    CHECK((a != b) == !want && (b != a) == !want, "identity:negation", "");
    DD own(a);
    CHECK(own == own && !(own != own) && !(own == a) && own != a && own.equal(a), "identity:copy", "a copy is not the same matrix, but equal");
    S<double> s(own), t(s);
    CHECK(s == s && !(s != s) && !(s == t) && s != t && s.equal(t), "identity:sparse copy", "");
    Z z(r, c), y(r2, c2);
    CHECK((z == y) == (r == r2 && c == c2) && (z != y) == !(z == y) && z.equal(y) == (z == y) && z.notEqual(y) == (z != y), "zero matrices", "");
    ctx.outcome(want ? "same" : "not the same"); ctx.state(mc::Hash()(r)(c)(r2)(c2)(want));
}

template <class A, class B> void sparse_pairs(mc::Ctx& ctx)
{
    typedef typename A::value_type TA; typedef typename B::value_type TB;
    const double t = tol2<TA, TB>();
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    static const std::vector<std::pair<size_t, size_t>> shapes{ { 0, 0 }, { 0, 2 }, { 2, 0 }, { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 } };
    auto sh = ctx.pick(shapes, "shape"), sh2 = ctx.pick(shapes, "shape2");
    auto f = [&](size_t i, size_t j) { return code(i, j); };
    Ref x = make(sh.first, sh.second, f), y = make(sh2.first, sh2.second, f);
    for (double& e : x.v) if (ctx.flag("a")) e = 0;
    ctx.shard();
    for (double& e : y.v) if (ctx.flag("b")) e = 0;
    if (sh == sh2 && x == y && x.nnz()) {
        int at = ctx.choose(int(x.v.size()) + 1, "at");
        if (at) {
            double& u = x.v[at - 1]; double& v = y.v[at - 1];
            if (u == 0) throw mc::Prune();
            switch (ctx.choose(6, "kind")) {
                case 0: u = v = nan_; break;
                case 1: v = nan_; break;
                case 2: u = v = inf; break;
                case 3: v = -u; break;
                case 4: u = 1; v = 1 + 0.25 * t; break;
                default: u = 1; v = 1 + 4 * t; break;
            }
        }
    }
    A a(sparse<TA, typename A::parameter>(x)); B b(sparse<TB, typename B::parameter>(y));
    Ref xa = rounded<TA>(x), yb = rounded<TB>(y);
    verdict(ctx, a, b, same(xa, yb, t), tag, str(x) + " and " + str(y));
    CHECK(untouched(bb::ref(a), xa) && untouched(bb::ref(b), yb), "operands changed:" + tag, "");
    ctx.state(mc::Hash()(tag)(hash(x).h)(hash(y).h));
}
typedef S<double> SD; typedef S<float> SF; typedef S<double, RM> XD; typedef S<float, RM> XF;
#define SP(n, A, B) mc::Register r##n("sparse " #A "," #B, sparse_pairs<A, B>, true);
SP(0, SD, SD) SP(1, SD, SF) SP(2, SF, SF) SP(3, XD, XD) SP(4, SD, XD) SP(5, SF, XD) SP(6, XF, XF)

/// storages: same number of elements and each equal
template <class A, class B> void storages(mc::Ctx& ctx, A const& a, B const& b, std::vector<double> const& x, std::vector<double> const& y, char const* tag)
{
    bool want = x.size() == y.size();
    for (size_t i = 0; want && i < x.size(); ++i) want = same(x[i], y[i], 1e-4);
    CHECK(a.equal(b) == want && b.equal(a) == want && a.notEqual(b) == !want, std::string("storage:") + tag, "");
    ctx.outcome(std::string(tag) + (want ? " equal" : " unequal"));
}
SCENARIO_SHARDED(storage_pairs)
{
    typedef Storage<double, false, false, 0> Flex; typedef Storage<float, false, true, 3> Heap; typedef Storage<double, true, true, 3> Stack;
    static const std::vector<double> pool{ 0, 1, -0.0, nan_, inf, 1.00001, 1.01 };
    std::vector<double> x(3), y(3);
    for (double& e : x) e = ctx.pick(ctx.thorough() ? pool : std::vector<double>{ 0, 1, nan_, inf }, "a");
    ctx.shard();
    for (double& e : y) e = ctx.pick(pool, "b");
    Flex f(3); Heap h; Stack s;
    for (int i = 0; i < 3; ++i) { f.begin()[i] = x[i]; h.begin()[i] = float(y[i]); s.begin()[i] = x[i]; }
    std::vector<double> yf; for (double e : y) yf.push_back(float(e));
    storages(ctx, f, h, x, yf, "flexible,heap");
    storages(ctx, s, h, x, yf, "stack,heap");
    Flex g(2); g.begin()[0] = x[0]; g.begin()[1] = x[1];
    storages(ctx, g, h, { x[0], x[1] }, yf, "shorter,heap");
    CHECK(!(g == f) && f == f && h == h && s == s, "storage:identity", "");
    ctx.state(mc::Hash()(mc::Hash()(x).h)(mc::Hash()(y).h));
}

} // namespace
