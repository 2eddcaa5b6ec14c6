// C38: matrices of integers are calculated without rounding.
#define MC_MAIN
#include "bb.h"
using namespace bb;

namespace bb {
template <> inline std::string kind<D<int>>() { return "Dense<int>"; }
template <> inline std::string kind<D<int, RM>>() { return "Dense<int,RowMajor>"; }
template <> inline std::string kind<S<int>>() { return "Sparse<int>"; }
template <> inline std::string kind<S<int, RM>>() { return "Sparse<int,RowMajor>"; }
template <> inline std::string kind<D<size_t>>() { return "Dense<size_t>"; }
template <> inline std::string kind<S<size_t>>() { return "Sparse<size_t>"; }
template <> inline std::string kind<S<size_t, RM>>() { return "Sparse<size_t,RowMajor>"; }
template <> inline std::string kind<D<size_t, RM>>() { return "Dense<size_t,RowMajor>"; }
}

namespace {

/// table of integers, row by row
template <class T> struct Tab
{
    size_t r = 0, c = 0; std::vector<T> v;
    Tab() {}
    Tab(size_t r, size_t c) : r(r), c(c), v(r * c, T(0)) {}
    T& operator()(size_t i, size_t j) { return v.at(i * c + j); }
    T operator()(size_t i, size_t j) const { return v.at(i * c + j); }
    bool operator==(Tab const& o) const { return r == o.r && c == o.c && v == o.v; }
    Tab t() const { Tab x(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) x(j, i) = (*this)(i, j); return x; }
    template <class U> Tab<U> as() const { Tab<U> x(r, c); for (size_t i = 0; i < v.size(); ++i) x.v[i] = static_cast<U>(v[i]); return x; }
};
template <class T> std::string str(Tab<T> const& a) { std::ostringstream o; o.precision(20); o << a.r << "x" << a.c << "["; for (T x : a.v) o << " " << x; return o.str() + " ]"; }
template <class T> mc::Hash hash(Tab<T> const& a) { mc::Hash h; h(a.r)(a.c)(a.v); return h; }

template <class T, class P> Tab<T> tab(D<T, P> const& m) { Tab<T> x(m.getNbRows(), m.getNbColumns()); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) x(i, j) = m(i, j); return x; }
template <class T, class P> Tab<T> tab(S<T, P> const& m)
{
    Tab<T> x(m.getNbRows(), m.getNbColumns());
    bool cm = std::is_same<typename P::orientation, ColumnMajor>::value;
    for (size_t o = 0; o < (cm ? x.c : x.r); ++o) for (size_t p = m.beginOffset()[o]; p < m.beginOffset()[o + 1]; ++p) (cm ? x(m.beginKey()[p], o) : x(o, m.beginKey()[p])) += m.begin()[p];
    return x;
}
template <class P> Tab<int> tab(Matrix<Zero, NullType, P> const& m) { return Tab<int>(m.getNbRows(), m.getNbColumns()); }

template <class T, class P = CM> D<T, P> full(Tab<T> const& a) { D<T, P> m(a.r, a.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) m(i, j) = a(i, j); return m; }
template <class T, class P = CM> S<T, P> packed(Tab<T> const& a)
{
    size_t n = 0; for (T x : a.v) n += x != T(0);
    if (n == 0) return S<T, P>(full<T, P>(a));
    S<T, P> m(a.r, a.c, n);
    bool cm = std::is_same<typename P::orientation, ColumnMajor>::value; size_t pos = 0, outer = cm ? a.c : a.r, inner = cm ? a.r : a.c;
    for (size_t o = 0; o < outer; ++o) { m.beginOffset()[o] = pos; for (size_t k = 0; k < inner; ++k) { T x = cm ? a(k, o) : a(o, k); if (x == T(0)) continue; m.begin()[pos] = x; m.beginKey()[pos] = k; ++pos; } }
    m.beginOffset()[outer] = pos;
    return m;
}

template <class M, class T> void same(mc::Ctx& ctx, M const& m, Tab<T> const& e, std::string const& tag)
{
    static_assert(std::is_same<typename M::value_type, T>::value, "type of the result");
    CHECK(m.getNbRows() == e.r && m.getNbColumns() == e.c, "dim:" + tag, std::to_string(m.getNbRows()) + "x" + std::to_string(m.getNbColumns()));
    CHECK(tab(m) == e, "value:" + tag, str(tab(m)) + " instead of " + str(e));
}

/// element values: what no product overflows, and the extremes
template <class T> std::vector<T> moderate();
template <> std::vector<int> moderate<int>() { return { 0, 1, -1, 20011, -26753 }; }
template <> std::vector<size_t> moderate<size_t>() { return { 0, 1, size_t(-1), (size_t(1) << 53) + 1, size_t(3) << 62 }; }
template <class T> std::vector<T> extreme();
template <> std::vector<int> extreme<int>() { return { 0, 1, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 16777217 }; }
template <> std::vector<size_t> extreme<size_t>() { return { 0, 1, size_t(-1), (size_t(1) << 53) + 1, size_t(1) << 63, 16777217 }; }

template <class T> Tab<T> choose(mc::Ctx& ctx, size_t r, size_t c, std::vector<T> const& values, int free, int shift, char const* name)
{
    Tab<T> a(r, c);
    for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = i < size_t(free) ? values[ctx.choose(int(values.size()), name)] : values[(i * 3 + shift) % values.size()];
    return a;
}

static const std::vector<std::pair<size_t, size_t>> shapes{ {0, 0}, {0, 2}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {4, 4} };

// copies, transpositions, conversions between storage orders and kinds
template <class T> void forms(mc::Ctx& ctx)
{
    auto sh = ctx.pick(shapes, "shape"); int free = std::min<int>(int(sh.first * sh.second), ctx.tier(4, 6));
    Tab<T> a(sh.first, sh.second);
    if (free) a.v[0] = ctx.pick(extreme<T>(), "first");
    ctx.shard();
    { Tab<T> b = choose(ctx, sh.first, sh.second, extreme<T>(), free - 1, ctx.choose(2, "shift"), "value"); std::vector<T> rest(b.v); for (size_t i = 1; i < a.v.size(); ++i) a.v[i] = rest[i - 1]; }
    const std::string tag = kind<D<T>>(); ctx.note(tag);
    D<T> d = full<T>(a); D<T, RM> r = full<T, RM>(a);
    same(ctx, d, a, "dense:" + tag); same(ctx, D<T>(d), a, "copy:" + tag);
    same(ctx, D<T, RM>(d), a, "to row major:" + tag); same(ctx, D<T>(r), a, "to column major:" + tag);
    same(ctx, transpose(d), a.t(), "transpose:" + tag); same(ctx, transpose(r), a.t(), "transpose row major:" + tag);
    same(ctx, D<double>(d), a.template as<double>(), "to double:" + tag); same(ctx, D<float>(d), a.template as<float>(), "to float:" + tag);
    { D<T> x; x = d; same(ctx, x, a, "assigned:" + tag); D<T> y(std::move(x)); same(ctx, y, a, "moved:" + tag); CHECK(y.equal(d) && d.equal(y) && d.equal(r) && !d.notEqual(y), "equal:" + tag, str(a)); }
    if (a.v.size()) for (size_t p = 0; p < a.v.size(); ++p) { Tab<T> o = a; o.v[p] ^= 1; CHECK(!d.equal(full<T>(o)) && d.notEqual(full<T>(o)), "unequal:" + tag, str(a) + " and " + str(o)); }
    { D<T> x(d); x = T(7); Tab<T> e = a; for (T& y : e.v) y = 7; same(ctx, x, e, "set:" + tag); }
    if (a.r && a.c) for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) {
        Matrix<Dense, T, SubCM> w(d, a.r - i, a.c - j, i, j); Tab<T> e(a.r - i, a.c - j);
        for (size_t k = 0; k < e.r; ++k) for (size_t l = 0; l < e.c; ++l) e(k, l) = a(i + k, j + l);
        same(ctx, D<T>(w), e, "window:" + tag);
    }
    {
        S<T> s(d); S<T, RM> t(r);
        same(ctx, s, a, "to sparse:" + tag); same(ctx, t, a, "to sparse row major:" + tag); same(ctx, S<T>(r), a, "row major to sparse:" + tag); same(ctx, S<T, RM>(d), a, "to sparse of the other order:" + tag);
        size_t n = 0; for (T x : a.v) n += x != 0;
        CHECK(s.nnz() == n && t.nnz() == n, "stored:" + tag, std::to_string(s.nnz()) + " of " + str(a));
        same(ctx, D<T>(s), a, "from sparse:" + tag); same(ctx, D<T, RM>(s), a, "from sparse to row major:" + tag); same(ctx, D<T>(t), a, "from row major sparse:" + tag);
        same(ctx, transpose(s), a.t(), "transpose sparse:" + tag); same(ctx, transpose(t), a.t(), "transpose sparse row major:" + tag);
        same(ctx, S<T, RM>(s), a, "sparse to row major:" + tag); same(ctx, S<double>(s), a.template as<double>(), "sparse to double:" + tag);
        CHECK(packed<T>(a).equal(s) && s.equal(t), "equal sparse:" + tag, str(a));
    }
    {
        long double one = 0, two = 0, mx = 0; for (T x : a.v) { long double y = x; if (y < 0) y = -y; one += y; two += y * y; mx = std::max(mx, y); }
        auto near = [](double x, long double y) { return std::abs(x - y) <= 1e-14L * y; };
        {
            CHECK(near(norm<NormMax>(d), mx) && near(norm<NormMax>(S<T>(d)), mx), "norm max:" + tag, std::to_string(norm<NormMax>(d)) + " of " + str(a));
            CHECK(near(norm<NormOne>(d), one) && near(norm<NormOne>(S<T>(d)), one), "norm one:" + tag, std::to_string(norm<NormOne>(d)) + " of " + str(a));
            CHECK(near(norm<NormTwo>(d), std::sqrt(two)) && near(norm<NormTwo>(S<T>(d)), std::sqrt(two)) && near(d.getNorm(), std::sqrt(two)), "norm two:" + tag, std::to_string(norm<NormTwo>(d)) + " of " + str(a));
        }
    }
    CHECK(tab(d) == a && tab(r) == a, "changed:" + tag, str(a));
    ctx.outcome(tag); ctx.state(mc::Hash()(tag)(hash(a).h));
}

template <class T, class U, class A, class B> void sums(mc::Ctx& ctx, A const& a, B const& b, Tab<T> const& x, Tab<U> const& y)
{
    typedef decltype(T() + U()) R;
    const std::string tag = kind<A>() + "," + kind<B>(); ctx.note(tag);
    Tab<R> p(x.r, x.c), m(x.r, x.c);
    for (size_t i = 0; i < x.v.size(); ++i) { p.v[i] = x.v[i] + y.v[i]; m.v[i] = x.v[i] - y.v[i]; }
    same(ctx, a + b, p, "+:" + tag); same(ctx, a - b, m, "-:" + tag);
    if constexpr (std::is_same<typename A::matrix_type, Dense>::value && std::is_same<R, T>::value) {
        A c(a); c += b; same(ctx, c, p, "+=:" + tag); c = a; c -= b; same(ctx, c, m, "-=:" + tag);
    }
    CHECK(tab(a) == x && tab(b) == y, "changed:" + tag, "");
    ctx.outcome("sum " + tag);
}
template <class T, class U, class A, class B> void product(mc::Ctx& ctx, A const& a, B const& b, Tab<T> const& x, Tab<U> const& y)
{
    typedef decltype(T() * U()) R;
    const std::string tag = kind<A>() + "*" + kind<B>(); ctx.note(tag);
    Tab<R> e(x.r, y.c);
    for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < y.c; ++j) for (size_t k = 0; k < x.c; ++k) e(i, j) += R(x(i, k)) * R(y(k, j));
    same(ctx, (a * b).template execute<Native>(), e, tag);
    CHECK(tab(a) == x && tab(b) == y, "changed:" + tag, "");
    ctx.outcome("product " + tag);
}

// sums: dense and sparse, alone and with floating point
void int_sums(mc::Ctx& ctx)
{
    auto sh = ctx.pick(shapes, "shape"); int n = int(sh.first * sh.second), free = std::min(n, ctx.tier(3, 4));
    Tab<int> x = choose(ctx, sh.first, sh.second, std::vector<int>{ 0, 1, -3, std::numeric_limits<int>::max() / 2, std::numeric_limits<int>::min() / 2, 16777217 }, free, 1, "A");
    ctx.shard();
    Tab<int> y = choose(ctx, sh.first, sh.second, std::vector<int>{ 0, -1, 1073741823, -1073741824, 16777217 }, free, 2, "B");
    sums(ctx, full(x), full(y), x, y); sums(ctx, full(x), packed(y), x, y); sums(ctx, packed(x), full(y), x, y); sums(ctx, packed(x), packed(y), x, y);
    sums(ctx, full<int, RM>(x), full<int, RM>(y), x, y); sums(ctx, packed<int, RM>(x), packed<int, RM>(y), x, y);
    Tab<double> f = y.as<double>(); for (double& v : f.v) v += v ? 0.5 : 0.0;
    sums(ctx, full(x), full(f), x, f); sums(ctx, full(f), full(x), f, x); sums(ctx, packed(x), full(f), x, f); sums(ctx, full(f), packed(x), f, x); sums(ctx, packed(f), packed(x), f, x);
    Tab<int> none(x.r, x.c);
    same(ctx, full(x) + Z(x.r, x.c), x, "D<int>+Zero"); same(ctx, Z(x.r, x.c) + full(x), x, "Zero+D<int>");
    same(ctx, packed(x) - Z(x.r, x.c), x, "S<int>-Zero");
    ctx.state(mc::Hash()("sum")(hash(x).h)(hash(y).h));
}
void size_sums(mc::Ctx& ctx)
{
    auto sh = ctx.pick(shapes, "shape"); int n = int(sh.first * sh.second), free = std::min(n, ctx.tier(3, 4));
    Tab<size_t> x = choose(ctx, sh.first, sh.second, extreme<size_t>(), free, 1, "A");
    ctx.shard();
    Tab<size_t> y = choose(ctx, sh.first, sh.second, extreme<size_t>(), free, 2, "B");
    sums(ctx, full(x), full(y), x, y); sums(ctx, full<size_t, RM>(x), full<size_t, RM>(y), x, y);
    sums(ctx, full(x), packed(y), x, y); sums(ctx, packed(x), full(y), x, y); sums(ctx, packed(x), packed(y), x, y); sums(ctx, packed<size_t, RM>(x), packed<size_t, RM>(y), x, y);
    ctx.state(mc::Hash()("sizes")(hash(x).h)(hash(y).h));
}

// products
void int_products(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> dims{ {1, 1, 1}, {2, 2, 2}, {1, 3, 2}, {3, 1, 2}, {2, 3, 3}, {0, 2, 1}, {2, 0, 2}, {2, 2, 0}, {3, 3, 3} };
    auto s = ctx.pick(dims, "dimensions"); const int top = ctx.tier(3, 4);
    Tab<int> x = choose(ctx, s[0], s[1], moderate<int>(), std::min<int>(int(s[0] * s[1]), top), 1, "A");
    ctx.shard();
    Tab<int> y = choose(ctx, s[1], s[2], moderate<int>(), std::min<int>(int(s[1] * s[2]), top), 2, "B");
    product(ctx, full(x), full(y), x, y); product(ctx, full(x), packed(y), x, y); product(ctx, packed(x), full(y), x, y); product(ctx, packed(x), packed(y), x, y);
    product(ctx, full<int, RM>(x), full<int, RM>(y), x, y); product(ctx, full<int, RM>(x), full(y), x, y); product(ctx, full(x), full<int, RM>(y), x, y);
    Tab<double> f = y.as<double>(); for (double& v : f.v) v *= 0.5;
    product(ctx, full(x), full(f), x, f); product(ctx, packed(x), full(f), x, f); product(ctx, full(x), packed(f), x, f); product(ctx, packed(x), packed(f), x, f);
    ctx.state(mc::Hash()("product")(hash(x).h)(hash(y).h));
}
void size_products(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> dims{ {1, 1, 1}, {2, 2, 2}, {1, 3, 2}, {3, 1, 2}, {3, 3, 3} };
    auto s = ctx.pick(dims, "dimensions"); const int top = ctx.tier(3, 4);
    Tab<size_t> x = choose(ctx, s[0], s[1], moderate<size_t>(), std::min<int>(int(s[0] * s[1]), top), 1, "A");
    ctx.shard();
    Tab<size_t> y = choose(ctx, s[1], s[2], moderate<size_t>(), std::min<int>(int(s[1] * s[2]), top), 2, "B");
    product(ctx, full(x), full(y), x, y); product(ctx, full<size_t, RM>(x), full<size_t, RM>(y), x, y);
    product(ctx, full(x), packed(y), x, y); product(ctx, packed(x), full(y), x, y); product(ctx, packed(x), packed(y), x, y);
    ctx.state(mc::Hash()("size product")(hash(x).h)(hash(y).h));
}

// large sides
template <class T> void wide(mc::Ctx& ctx)
{
    size_t n = ctx.pick(std::vector<size_t>{ 15, 16, 17, 31, 33, 64, 65 }, "side"), c = ctx.pick(std::vector<size_t>{ 1, 2, 16, 17 }, "columns"); int every = ctx.pick(std::vector<int>{ 1, 2, 5 }, "every");
    ctx.shard();
    Tab<T> x(n, c), y(c, n), z(n, c);
    auto value = [](size_t k) { return T(std::is_same<T, int>::value ? T(k * 7919 % 4001) - T(2000) : T(k * 0x9E3779B97F4A7C15ull)); };
    for (size_t i = 0; i < x.v.size(); ++i) { if (i % every == 0) { x.v[i] = value(i); y.v[i] = value(i + 5); } if (i % 3 == 0) z.v[i] = value(i + 11); }
    product(ctx, full(x), full(y), x, y); product(ctx, packed(x), full(y), x, y); product(ctx, full(x), packed(y), x, y); product(ctx, packed(x), packed(y), x, y);
    product(ctx, full(y), full(x), y, x); product(ctx, packed(y), packed(x), y, x); product(ctx, full<T, RM>(x), full<T, RM>(y), x, y);
    sums(ctx, full(x), full(z), x, z); sums(ctx, full(x), packed(z), x, z); sums(ctx, packed(x), full(z), x, z); sums(ctx, packed(x), packed(z), x, z);
    D<T> d = full<T>(x); S<T> s(d);
    same(ctx, s, x, "wide to sparse"); same(ctx, D<T>(s), x, "wide from sparse"); same(ctx, transpose(d), x.t(), "wide transpose"); same(ctx, transpose(s), x.t(), "wide transpose sparse"); same(ctx, D<T, RM>(d), x, "wide to row major");
    ctx.outcome("wide"); ctx.state(mc::Hash()("wide")(hash(x).h));
}

mc::Register r6("wide int", wide<int>, true), r7("wide size_t", wide<size_t>, true);
mc::Register r0("forms int", forms<int>, true), r1("forms size_t", forms<size_t>, true), r2("sums int", int_sums, true), r3("sums size_t", size_sums, true), r4("products int", int_products, true), r5("products size_t", size_products, true);

} // namespace
