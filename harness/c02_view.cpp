// C02: submatrix views are windows: same cells, nothing outside, deep copy on conversion.
#define MC_MAIN
#include "routes.h"
using namespace bb;
using namespace routes;

namespace {

template <class T> using V = Matrix<Dense, T, SubCM>;

struct Win { size_t r, c, i, j; };

// every window (nr x nc at br,bc) of an R x C matrix
Win window(mc::Ctx& ctx, size_t R, size_t C, size_t lo = 1)
{
    Win w;
    w.r = lo + ctx.choose(int(R) - int(lo) + 1, "window rows"); w.c = lo + ctx.choose(int(C) - int(lo) + 1, "window columns");
    w.i = ctx.choose(int(R - w.r) + 1, "begin row"); w.j = ctx.choose(int(C - w.c) + 1, "begin column");
    return w;
}

std::string ws(Win w) { return std::to_string(w.r) + "x" + std::to_string(w.c) + "@" + std::to_string(w.i) + "," + std::to_string(w.j); }

template <class M, class T> void check_view(mc::Ctx& ctx, M& base, V<T>& v, Win w, std::string const& tag)
{
    CHECK(v.getNbRows() == w.r && v.getNbColumns() == w.c && v.getSize() == w.r * w.c, "dim:" + tag, "view has wrong dimension");
    CHECK(v.getLdRows() == base.getLdRows() && v.getLdColumns() == base.getLdColumns(), "leading:" + tag, "view of a matrix with leading dimensions " + std::to_string(base.getLdRows()) + ", " + std::to_string(base.getLdColumns()) + " has " + std::to_string(v.getLdRows()) + ", " + std::to_string(v.getLdColumns()));
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j)
        CHECK(&v(i, j) == &base(w.i + i, w.j + j), "cell:" + tag, "element (" + std::to_string(i) + "," + std::to_string(j) + ") of window " + ws(w) + " is not the matrix' element (" + std::to_string(w.i + i) + "," + std::to_string(w.j + j) + ")");
    for (int k = 0; k < nb_routes; ++k) {
        size_t seen = 0;
        route<V<T>>(k, v, [&](size_t i, size_t j, T& x) { ++seen; CHECK(&x == &base(w.i + i, w.j + j), "route:" + tag + ":" + route_names[k], "window " + ws(w) + " of a " + std::to_string(base.getNbRows()) + "x" + std::to_string(base.getNbColumns()) + " matrix: route reaches another cell for (" + std::to_string(i) + "," + std::to_string(j) + ")"); });
        CHECK(seen == w.r * w.c, "route-count:" + tag + ":" + route_names[k], "route visits " + std::to_string(seen) + " elements of window " + ws(w));
    }
}

template <class T> D<T> numbered(size_t R, size_t C) { D<T> m(R, C); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m(i, j) = T(((i * 31 + j) % 2 ? -1.0 : 1.0) * double(1 + i * 40 + j)); return m; }

template <class T, class T2, class Checker>
void convert(mc::Ctx& ctx, V<T> const& v, D<T> const& base, Win w, Checker const& c, std::string const& tag, double lo, double hi, bool incl)
{
    D<T2> d(v, c);
    CHECK(d.getNbRows() == w.r && d.getNbColumns() == w.c && d.getSize() == w.r * w.c, "convert-dim:" + tag, "converted matrix has wrong dimension");
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) {
        double x = base(w.i + i, w.j + j), a = std::abs(x);
        bool keep = a > lo && (incl ? a <= hi : a < hi);
        CHECK(d(i, j) == T2(keep ? x : 0.0), "convert:" + tag, "window " + ws(w) + " element (" + std::to_string(i) + "," + std::to_string(j) + ") converts to " + std::to_string(d(i, j)) + " instead of " + std::to_string(keep ? x : 0.0));
    }
    d = T2(7);
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) CHECK(base(w.i + i, w.j + j) != T(7) || w.i + i == 0, "convert-alias:" + tag, "conversion of a view must be a deep copy");
}

template <class T, class T2> void conversions(mc::Ctx& ctx, size_t R, size_t C, Win w, std::string tag)
{
    D<T> base = numbered<T>(R, C);
    V<T> v(base, w.r, w.c, w.i, w.j);
    const double inf = std::numeric_limits<double>::infinity();
    D<T2> d(v);
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) CHECK(d(i, j) == T2(base(w.i + i, w.j + j)), "convert-plain:" + tag, "plain conversion of window " + ws(w) + " differs at (" + std::to_string(i) + "," + std::to_string(j) + ")");
    convert<T, T2>(ctx, v, base, w, AbsoluteValueRangeChecker<double>(41.5), tag + ":>41.5", 41.5, inf, true);
    convert<T, T2>(ctx, v, base, w, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(2.0, 42.0), tag + ":(2,42]", 2.0, 42.0, true);
    convert<T, T2>(ctx, v, base, w, AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound>(2.0, 42.0), tag + ":(2,42)", 2.0, 42.0, false);
}

// writes through the view: exactly the window changes
template <class T> void writes(mc::Ctx& ctx, D<T>& base, V<T>& v, Win w, std::string const& tag, int how)
{
    D<T> before(base);
    auto val = [&](size_t i, size_t j) { return how == 0 ? T(-5) : T(1000 + i * 50 + j); };
    if (how == 0) v = T(-5);
    else if (how == 1) { D<T> src(w.r, w.c); for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) src(i, j) = val(i, j); copy(src, v); }
    else if (how == 2) { D<T> big(w.r + 2, w.c + 1); big = T(3); for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) big(i + 1, j + 1) = val(i, j); V<T> s(big, w.r, w.c, 1, 1); copy(s, v); }
    else if (how == 3) { size_t n = 0; for (auto& x : v) { x = val(n % w.r, n / w.r); ++n; } }
    else if (how == 4) AllFiller<T>(T(-5))(v);
    else route<V<T>>(how - 5, v, [&](size_t i, size_t j, T& x) { x = val(i, j); });
    for (size_t i = 0; i < base.getNbRows(); ++i) for (size_t j = 0; j < base.getNbColumns(); ++j) {
        bool in = i >= w.i && i < w.i + w.r && j >= w.j && j < w.j + w.c;
        T e = in ? (how == 4 ? T(-5) : val(i - w.i, j - w.j)) : before(i, j);
        CHECK(base(i, j) == e, std::string(in ? "write-inside:" : "write-outside:") + tag + ":" + std::to_string(how), "after writing window " + ws(w) + " element (" + std::to_string(i) + "," + std::to_string(j) + ") of the matrix is " + std::to_string(double(base(i, j))) + " instead of " + std::to_string(double(e)));
    }
    // and the other direction
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) { base(w.i + i, w.j + j) = T(i * 60 + j + 1); CHECK(v(i, j) == T(i * 60 + j + 1), "seen-through:" + tag, "write to the matrix is not seen through the view"); }
}
const int nb_writes = 5 + nb_routes;

template <class T> void one(mc::Ctx& ctx, size_t R, size_t C, std::string const& t)
{
    Win w = window(ctx, R, C);
    D<T> base = numbered<T>(R, C);
    V<T> v(base, w.r, w.c, w.i, w.j);
    check_view(ctx, base, v, w, t);
    for (int how = 0; how < nb_writes; ++how) writes(ctx, base, v, w, t, how);
    { V<T> v2(v); check_view(ctx, base, v2, w, t + ":copied view"); writes(ctx, base, v2, w, t + ":copied view", 3); }
    { V<T> tmp(v); V<T> v2(std::move(tmp)); check_view(ctx, base, v2, w, t + ":moved view"); writes(ctx, base, v2, w, t + ":moved view", 5); }
    { D<T> other = numbered<T>(R + 1, C + 1); V<T> v2(other, 1, 1, 0, 0); v2 = v; check_view(ctx, base, v2, w, t + ":assigned view"); }
    { D<T> other = numbered<T>(R + 1, C + 1); V<T> v2(other, 1, 1, 0, 0); V<T> tmp(v); v2 = std::move(tmp); check_view(ctx, base, v2, w, t + ":move-assigned view"); }
    conversions<T, double>(ctx, R, C, w, t + "->double");
    conversions<T, float>(ctx, R, C, w, t + "->float");
    ctx.state(mc::Hash()(t)(R)(C)(w));
}

template <class T> void nested(mc::Ctx& ctx, size_t R, size_t C, std::string const& t)
{
    Win w = window(ctx, R, C);
    Win x = window(ctx, w.r, w.c);
    D<T> base = numbered<T>(R, C);
    V<T> v(base, w.r, w.c, w.i, w.j);
    V<T> n(v, x.r, x.c, x.i, x.j);
    Win y{x.r, x.c, w.i + x.i, w.j + x.j};
    check_view(ctx, base, n, y, t + ":nested");
    writes(ctx, base, n, y, t + ":nested", 0);
    writes(ctx, base, n, y, t + ":nested", 3);
    writes(ctx, base, n, y, t + ":nested", 5);
    D<T> b2 = numbered<T>(R, C); V<T> v2(b2, w.r, w.c, w.i, w.j), n2(v2, x.r, x.c, x.i, x.j);
    D<double> d(n2);
    for (size_t i = 0; i < y.r; ++i) for (size_t j = 0; j < y.c; ++j) CHECK(d(i, j) == b2(y.i + i, y.j + j), "convert:" + t + ":nested", "conversion of window " + ws(x) + " of window " + ws(w) + " differs");
    if (x.r > 1 && x.c > 1) {   // third level
        V<T> n3(n, x.r - 1, x.c - 1, 1, 1);
        check_view(ctx, base, n3, Win{x.r - 1, x.c - 1, y.i + 1, y.j + 1}, t + ":nested twice");
    }
    ctx.state(mc::Hash()(t)("nested")(R)(C)(w)(x));
}

} // namespace

SCENARIO_SHARDED(windows)
{
    int n = ctx.tier(4, 6);
    size_t R = ctx.range(1, n, "rows"), C = ctx.range(1, n, "columns");
    ctx.shard();
    switch (ctx.choose(2, "type")) { case 0: one<double>(ctx, R, C, "double"); break; case 1: one<float>(ctx, R, C, "float"); break; }
    ctx.outcome("window ok");
    ctx.sample(std::to_string(R) + "x" + std::to_string(C));
}

SCENARIO_SHARDED(windows_of_windows)
{
    int n = ctx.tier(4, 5);
    size_t R = ctx.range(1, n, "rows"), C = ctx.range(1, n, "columns");
    ctx.shard();
    nested<double>(ctx, R, C, "double");
    ctx.outcome("nested ok");
}

// larger matrices: all windows out of a set of corner positions
SCENARIO_SHARDED(large_windows)
{
    static const std::vector<size_t> q{9, 16, 17, 33, 40, 65}, t{9, 16, 17, 33, 40, 64, 65, 100, 129, 257};
    auto const& sizes = ctx.thorough() ? t : q;
    int far = ctx.choose(3, "longest");      // rows or columns which 16 bits cannot count
    size_t R = far == 1 ? 70000 : far == 2 ? 3 : ctx.pick(sizes), C = far == 2 ? 70000 : far == 1 ? 3 : ctx.pick(sizes);
    ctx.shard();
    auto pos = [&](size_t N) { std::vector<size_t> p{0, 1, N / 2, N - 3}; return ctx.pick(p); };
    size_t bi = pos(R), bj = pos(C);
    std::vector<size_t> hr{1, 2, (R - bi) / 2, R - bi}, hc{1, 2, (C - bj) / 2, C - bj};
    size_t r = ctx.pick(hr), c = ctx.pick(hc);
    if (!r || !c) throw mc::Prune();
    Win w{r, c, bi, bj};
    D<double> base = numbered<double>(R, C);
    V<double> v(base, r, c, bi, bj);
    check_view(ctx, base, v, w, "large");
    writes(ctx, base, v, w, "large", 0); writes(ctx, base, v, w, "large", 1); writes(ctx, base, v, w, "large", 3);
    conversions<double, float>(ctx, R, C, w, "large->float");
    ctx.state(mc::Hash()("large")(R)(C)(w));
}

// in-place sums of two windows: of two matrices, or of one without a common element, or the same window twice
template <class T> void window_sums(mc::Ctx& ctx)
{
    std::string t = sizeof(T) == 8 ? "double" : "float";
    int n = ctx.tier(3, 4);
    size_t R = ctx.range(1, n, "rows"), C = ctx.range(1, n, "columns");
    ctx.shard();
    Win w = window(ctx, R, C), x = w; x.i = ctx.choose(int(R - w.r) + 1, "other row"); x.j = ctx.choose(int(C - w.c) + 1, "other column");
    bool minus = ctx.flag("minus"); int where = ctx.choose(2, "other matrix");
    bool apart = x.i + x.r <= w.i || w.i + w.r <= x.i || x.j + x.c <= w.j || w.j + w.c <= x.j, equal = x.i == w.i && x.j == w.j;
    if (!where && !apart && !equal) throw mc::Prune();
    D<T> base = numbered<T>(R, C), other(R + 2, C + 1), b0(base); for (size_t i = 0; i < R + 2; ++i) for (size_t j = 0; j < C + 1; ++j) other(i, j) = T(1000 * (i + 1) + 7 * j); D<T> o0(other);
    V<T> v(base, w.r, w.c, w.i, w.j), u(where ? other : base, x.r, x.c, x.i, x.j);
    V<T>& result = minus ? v -= u : v += u;
    std::string tag = t + (minus ? ":-=" : ":+="), what = "window " + ws(w) + (minus ? " -= " : " += ") + ws(x) + (where ? " of another matrix" : "");
    CHECK(&result == &v, "in-place:result:" + tag, what);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) {
        bool in = i >= w.i && i < w.i + w.r && j >= w.j && j < w.j + w.c;
        T e = b0(i, j); if (in) { T y = (where ? o0 : b0)(i - w.i + x.i, j - w.j + x.j); e = minus ? e - y : e + y; }
        CHECK(base(i, j) == e, std::string(in ? "in-place:inside:" : "in-place:outside:") + tag, what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + std::to_string(double(base(i, j))) + " instead of " + std::to_string(double(e)));
    }
    for (size_t i = 0; i < R + 2; ++i) for (size_t j = 0; j < C + 1; ++j) CHECK(other(i, j) == o0(i, j), "in-place:other:" + tag, what);
    // windows of another shape are refused
    if (w.r > 1) { V<T> less(other, w.r - 1, w.c, 0, 0); D<T> b1(base); bool thrown = false; try { if (minus) v -= less; else v += less; } catch (std::exception const&) { thrown = true; } CHECK(thrown && std::equal(base.begin(), base.end(), b1.begin()), "in-place:shape:" + tag, what); }
    if (w.c > 1) { V<T> less(other, w.r, w.c - 1, 0, 0); D<T> b1(base); bool thrown = false; try { if (minus) v -= less; else v += less; } catch (std::exception const&) { thrown = true; } CHECK(thrown && std::equal(base.begin(), base.end(), b1.begin()), "in-place:shape:" + tag, what); }
    ctx.outcome("in place " + tag); ctx.state(mc::Hash()(t)("in place")(R)(C)(w)(x)(minus)(where));
}
mc::Register ip1("in place double", window_sums<double>, true), ip2("in place float", window_sums<float>, true);

// empty windows: no element, no access
SCENARIO(empty_windows)
{
    int n = ctx.tier(3, 5);
    size_t R = ctx.range(0, n, "rows"), C = ctx.range(0, n, "columns");
    Win w = window(ctx, R, C, 0);
    if (w.r && w.c) throw mc::Prune();
    D<double> base(R, C); base = 1.0;
    V<double> v(base, w.r, w.c, w.i, w.j);
    size_t steps = 0;
    for (auto it = v.begin(); it != v.end(); ++it) { if (++steps > 3) break; }
    CHECK(steps == 0, "empty-window:iteration", "begin() != end() for the empty window " + ws(w) + " of a " + std::to_string(R) + "x" + std::to_string(C) + " matrix");
    V<double> const& cv = v;
    for (auto it = cv.begin(); it != cv.end(); ++it) { if (++steps > 3) break; }
    CHECK(steps == 0, "empty-window:iteration", "const begin() != end() for the empty window " + ws(w));
    D<double> d(v);
    CHECK(d.getNbRows() == w.r && d.getNbColumns() == w.c && d.getSize() == 0, "empty-window:convert", "empty window converts to a non-empty matrix");
    ctx.state(mc::Hash()("empty")(R)(C)(w));
}

// a window beyond the matrix is refused, a window within is exact
SCENARIO_SHARDED(windows_beyond)
{
    int n = ctx.tier(3, 4);
    size_t R = ctx.range(0, n, "rows"), C = ctx.range(0, n, "columns");
    size_t const max = ~size_t(0);
    auto positions = [&](size_t N) { std::vector<size_t> p; for (size_t i = 0; i <= N + 2; ++i) p.push_back(i); for (size_t i : { max / 2, max / 2 + 1, max / 2 + 2, max - N, max - N + 1, max - 1, max }) p.push_back(i); return p; };
    auto pr = positions(R), pc = positions(C);
    ctx.shard();
    Win w; w.r = ctx.pick(pr, "window rows"); w.i = ctx.pick(pr, "begin row"); w.c = ctx.pick(pc, "window columns"); w.j = ctx.pick(pc, "begin column");
    auto fits = [](size_t N, size_t n, size_t b) { return n <= N && b <= N && b + n <= N; };
    bool ok = fits(R, w.r, w.i) && fits(C, w.c, w.j);
    std::string what = "window " + ws(w) + " of a " + std::to_string(R) + "x" + std::to_string(C) + " matrix";
    D<double> base = numbered<double>(R, C), before(base);
    auto unchanged = [&] { for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) CHECK(base(i, j) == before(i, j), "refused:changed", "refusing " + what + " changed the matrix"); };
    auto test = [&](auto& m, std::string const& tag) {
        try {
            V<double> v(m, w.r, w.c, w.i, w.j);
            CHECK(ok || !w.r || !w.c, "beyond:" + tag, what + " is accepted");   // an empty window reaches nothing
            if (w.r && w.c) check_view(ctx, m, v, w, "beyond:" + tag);
            D<double> d(v);
            CHECK(d.getNbRows() == w.r && d.getNbColumns() == w.c, "beyond:convert:" + tag, what + " converts to a matrix of other dimensions");
        } catch (std::exception const& e) { CHECK(!ok, "within:" + tag, what + " is refused: " + e.what()); }
    };
    test(base, "matrix"); unchanged();
    if (R && C) {   // the same window of a window: what surrounds it does not make room
        D<double> outer = numbered<double>(R + 3, C + 2);
        V<double> mid(outer, R, C, 2, 1);
        test(mid, "window");
    }
    ctx.outcome(ok ? "taken" : "refused");
    ctx.state(mc::Hash()("beyond")(R)(C)(w));
}

// copying between matrices and windows: same dimensions or refused, never anything beyond
SCENARIO_SHARDED(copies)
{
    int n = ctx.tier(3, 4);
    size_t R = ctx.range(0, n, "rows"), C = ctx.range(0, n, "columns");
    ctx.shard();
    size_t r = ctx.range(0, n, "destination rows"), c = ctx.range(0, n, "destination columns");
    int how = ctx.choose(4, "views"), type = ctx.choose(2, "type");
    const bool ok = R == r && C == c;
    auto test = [&](auto const& s, auto& d, auto& whole, size_t i0, size_t j0) {
        D<double> before(whole);
        bool thrown = false;
        try { copy(s, d); } catch (std::exception const&) { thrown = true; }
        const std::string what = "copy of " + std::to_string(R) + "x" + std::to_string(C) + " to " + std::to_string(r) + "x" + std::to_string(c);
        CHECK(thrown == !ok, "copy:dimensions", what + (thrown ? " is refused" : " is accepted"));
        for (size_t i = 0; i < whole.getNbRows(); ++i) for (size_t j = 0; j < whole.getNbColumns(); ++j) {
            bool in = ok && i >= i0 && i < i0 + r && j >= j0 && j < j0 + c;
            CHECK(double(whole(i, j)) == (in ? double(s(i - i0, j - j0)) : before(i, j)), "copy:elements", what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")");
        }
    };
    auto types = [&](auto t) {
        typedef decltype(t) T;
        D<double> sw = numbered<double>(R + 2, C + 1), s = numbered<double>(R, C);
        D<T> dw(r + 1, c + 2), d(r, c); dw = T(3); d = T(3);
        V<double> sv(sw, R, C, 2, 1); V<T> dv(dw, r, c, 1, 1);
        if (how == 0) test(s, d, d, 0, 0);
        if (how == 1) test(sv, d, d, 0, 0);
        if (how == 2) test(s, dv, dw, 1, 1);
        if (how == 3) test(sv, dv, dw, 1, 1);
    };
    if (type) types(1.0f); else types(1.0);
    ctx.outcome(ok ? "copied" : "copy refused");
    ctx.state(mc::Hash()("copies")(R)(C)(r)(c)(how)(type));
}
