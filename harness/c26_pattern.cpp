// C26: pattern pictures show the magnitude class of every element.
#define MC_MAIN
#include "xpm.h"
using namespace bb;

namespace {

const std::vector<Palette> palettes{
    { {}, {}, {}, ".", "ffffff" },
    { { "a" }, { "000000" }, { 1.0 }, " ", "ffffff" },
    { { "a", "b" }, { "ff0000", "00ff00" }, { 1.0, 1e-4 }, ".", "0000ff" },
    { { "x", "y", "z" }, { "111111", "222222", "333333" }, { 1e3, 0.1, 1e-8 }, "#", "444444" },
    { { "p", "q" }, { "010203", "040506" }, { 0.5, 0.0 }, "-", "070809" },               // everything finite has a class
    { { "1", "2", "3", "4" }, { "aa0000", "bb0000", "cc0000", "dd0000" }, { 1e6, 1.0, 1.0, 1e-6 }, "0", "ee0000" },   // equal thresholds: the first one
    { { "k", "l" }, { "0a0a0a", "0b0b0b" }, { 1e-3, 10.0 }, "m", "0c0c0c" },             // unsorted: the first one
};
template <class T> std::vector<T> values(Palette const& p)
{
    std::vector<T> v{ T(0), T(-0.0), T(1e30), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min() };
    for (double t : p.threshold) { T x(t); for (T y : { x, std::nextafter(x, T(0)), std::nextafter(x, T(1e30)) }) { v.push_back(y); v.push_back(-y); } }
    return v;
}
template <class M> void compare(mc::Ctx& ctx, M const& m, std::string const& file, Palette const& p, std::string const& tag)
{
    std::string s = slurp(file);
    Xpm x;
    try { x = parse(s); } catch (mc::Failure const& f) { throw mc::Failure{ f.sig + ":" + tag, f.msg }; }
    CHECK(x.w == m.getNbColumns() && x.h == m.getNbRows() && x.cpp == 1, "size:" + tag, std::to_string(x.w) + "x" + std::to_string(x.h));
    CHECK(x.n == p.index.size() + 1, "palette size:" + tag, std::to_string(x.n));
    for (size_t i = 0; i < x.n; ++i) CHECK(x.colors[i].first == (i < p.index.size() ? p.index[i] : p.bgi) && x.colors[i].second == "#" + (i < p.index.size() ? p.color[i] : p.bgc), "palette:" + tag, x.colors[i].first + " " + x.colors[i].second);
    for (size_t i = 0; i < x.h; ++i) for (size_t j = 0; j < x.w; ++j)
        CHECK(x.rows[i].substr(j, 1) == expected(p, m(i, j)), "pixel:" + tag, "element (" + std::to_string(i) + "," + std::to_string(j) + ") = " + std::to_string(m(i, j)) + " is shown as '" + x.rows[i].substr(j, 1) + "' instead of '" + expected(p, m(i, j)) + "'");
}

/// every class boundary at every position, on every background
template <class T, class P> void boundaries(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<M>(); ctx.note(tag);
    size_t r = ctx.range(0, 3, "rows"), c = ctx.range(0, 4, "columns");
    int k = ctx.choose(int(palettes.size()), "palette");
    ctx.shard();
    Palette const& p = palettes[k];
    const std::vector<T> v = values<T>(p);
    int x = ctx.choose(int(v.size()), "value"), back = ctx.choose(2, "background");
    int at = r * c ? ctx.choose(int(r * c), "at") : 0;
    M m(r, c);
    for (size_t e = 0; e < r * c; ++e) m.begin()[e] = back ? v[(e * 5 + 3) % v.size()] : T(0);
    if (r * c) m.begin()[at] = v[x];
    std::vector<T> before(m.begin(), m.end());
    PatternGenerator const g(settings(p));
    if (ctx.flag("old file")) { std::ofstream o("p.xpm"); o << std::string(5000, 'o'); }
    g(m, "p.xpm");
    CHECK(before.empty() || std::memcmp(before.data(), &*m.begin(), before.size() * sizeof(T)) == 0, "matrix changed:" + tag, "");
    compare(ctx, m, "p.xpm", p, tag);
    ctx.outcome("palette " + std::to_string(k)); ctx.state(mc::Hash()(tag)(r)(c)(k)(x)(back)(at));
}
mc::Register b1("boundaries double", boundaries<double, CM>, true), b2("boundaries float", boundaries<float, CM>, true), b3("boundaries row major", boundaries<double, RM>, true);

/// all assignments of classes to the elements of small matrices
SCENARIO_SHARDED(assignments)
{
    typedef D<double> M;
    static const std::vector<std::pair<size_t, size_t>> shapes{ { 1, 1 }, { 1, 5 }, { 5, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 } };
    auto sh = ctx.pick(shapes, "shape");
    int k = ctx.pick(std::vector<int>{ 2, 3, 6 }, "palette");
    ctx.shard();
    Palette const& p = palettes[k];
    std::vector<double> reps{ 0.0, 1e9, -p.threshold[1] };
    if (ctx.thorough()) reps.push_back(p.threshold[0]);
    M m(sh.first, sh.second);
    mc::Hash h; h(k)(sh.first)(sh.second);
    for (double& x : m) { int i = ctx.choose(int(reps.size()), "class"); x = reps[i]; h(i); }
    PatternGenerator g; PatternGenerator g2(settings(p)); g = g2;
    g(m, "p.xpm");
    compare(ctx, m, "p.xpm", p, "assignments");
    ctx.outcome("shown"); ctx.state(h);
}

/// parts of a matrix, and large matrices
SCENARIO_SHARDED(parts)
{
    typedef Matrix<Dense, double, SubCM> V;
    size_t r = ctx.range(1, 4, "rows"), c = ctx.range(1, 4, "columns"), ro = ctx.range(0, 2, "row offset"), co = ctx.range(0, 2, "column offset");
    int k = ctx.choose(int(palettes.size()), "palette");
    ctx.shard();
    Palette const& p = palettes[k];
    auto v = values<double>(p);
    D<double> m(r + ro + 1, c + co + 1);
    for (size_t e = 0; e < m.getSize(); ++e) m.begin()[e] = v[(e * 3) % v.size()];
    V const view(m, r, c, ro, co);
    PatternGenerator(settings(p))(view, "p.xpm");
    compare(ctx, view, "p.xpm", p, "part");
    ctx.outcome("shown"); ctx.state(mc::Hash()(r)(c)(ro)(co)(k));
}
SCENARIO(large)
{
    auto sh = ctx.pick(std::vector<std::pair<size_t, size_t>>{ { 1, 1500 }, { 1500, 1 }, { 120, 130 }, { 257, 3 } }, "shape");
    int k = ctx.choose(int(palettes.size()), "palette");
    Palette const& p = palettes[k];
    auto v = values<double>(p);
    D<double> m(sh.first, sh.second);
    for (size_t e = 0; e < m.getSize(); ++e) m.begin()[e] = v[(e * 7 + e / 11) % v.size()];
    PatternGenerator(settings(p))(m, "p.xpm");
    compare(ctx, m, "p.xpm", p, "large");
    ctx.outcome("shown"); ctx.state(mc::Hash()(sh.first)(k));
}

} // namespace
