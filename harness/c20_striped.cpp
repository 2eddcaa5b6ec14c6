// C20: every walk of a striped iterator ends where it should.
#define MC_MAIN
#include "bb.h"
#include <iterator>
using namespace bb;

namespace {

/// n = continuous * blocks elements; position -1 is before the first, n past the last one
struct Shape { long continuous, blocks, gap; long n() const { return continuous * blocks; }
    long offset(long k) const { return k < 0 ? -1 : k == 0 ? 0 : k == n() ? n() + (blocks - 1) * gap : k / continuous * (continuous + gap) + k % continuous; } };

template <class It, class Ends> void walk(mc::Ctx& ctx, Shape s, Ends ends, double const* data, std::string const& tag, int depth)
{
    // ends: begin, end, rbegin, rend
    It const b = ends(0), e = ends(1), rb = ends(2), re = ends(3);
    long const n = s.n();
    auto what = [&](std::string const& h) { return h + " (stripes of " + std::to_string(s.continuous) + ", " + std::to_string(s.blocks) + " blocks, gap " + std::to_string(s.gap) + ")"; };
    int origin = ctx.choose(4, "origin");
    long k = origin == 0 ? 0 : origin == 1 ? n : origin == 2 ? n - 1 : -1;
    static const char* names[] = { "begin", "end", "rbegin", "rend" };
    It it = ends(origin);
    std::string h = names[origin];
    auto check = [&] {
        if (k >= 0 && k < n) CHECK(&*it == data + s.offset(k), "element:" + tag, what(h) + " refers to offset " + std::to_string(&*it - data) + " instead of " + std::to_string(s.offset(k)));
        CHECK((it == b) == (k == 0), "equals begin:" + tag, what(h) + " at position " + std::to_string(k));
        CHECK((it == e) == (k == n) && (it != e) == (k != n), "equals end:" + tag, what(h) + " at position " + std::to_string(k));
        CHECK((it == rb) == (k == n - 1), "equals rbegin:" + tag, what(h) + " at position " + std::to_string(k));
        CHECK((it == re) == (k == -1) && (it != re) == (k != -1), "equals rend:" + tag, what(h) + " at position " + std::to_string(k));
    };
    check();
    long target = n == 0 ? k : ctx.choose(int(n + 2), "position") - 1;     // straight to any position
    while (k < target) { ++it; ++k; }
    while (k > target) { --it; --k; }
    h += " to " + std::to_string(k);
    check();
    for (int d = 0; d < depth; ++d) {
        int op = ctx.choose(6, "step");
        if (op == 0) break;
        if (op < 3 ? k >= n || n == 0 : op < 5 ? k <= -1 || n == 0 : false) throw mc::Prune();
        It old = it; long was = k;
        switch (op) {
        case 1: { It& r = ++it; ++k; h += ", ++it"; CHECK(&r == &it, "pre-increment:" + tag, what(h)); break; }
        case 2: { It r = it++; ++k; h += ", it++"; CHECK(r == old, "post-increment:" + tag, what(h)); if (was >= 0 && was < n) CHECK(&*r == data + s.offset(was), "post-increment:" + tag, what(h)); break; }
        case 3: { It& r = --it; --k; h += ", --it"; CHECK(&r == &it, "pre-decrement:" + tag, what(h)); break; }
        case 4: { It r = it--; --k; h += ", it--"; CHECK(r == old, "post-decrement:" + tag, what(h)); if (was >= 0 && was < n) CHECK(&*r == data + s.offset(was), "post-decrement:" + tag, what(h)); break; }
        case 5: { It c(it); It a; a = c; it = a; h += ", copied"; CHECK(it == old, "copy:" + tag, what(h)); break; }
        }
        if (op < 5) CHECK(it != old, "step:" + tag, what(h));
        check();
        ctx.state(mc::Hash()(tag)(s.continuous)(s.blocks)(s.gap)(k)(op));
    }
    // the rest of the way in both directions
    if (n) {
        It f = it; long p = k;
        if (p == -1) { ++f; ++p; }
        for (; p < n; ++p, ++f) { CHECK(f != e, "forwards:" + tag, what(h + ", forwards to " + std::to_string(p))); CHECK(&*f == data + s.offset(p), "forwards:" + tag, what(h + ", forwards to " + std::to_string(p))); }
        CHECK(f == e, "forwards:" + tag, what(h + ", forwards does not end"));
        It r = it; p = k;
        if (p == n) { --r; --p; }
        for (; p >= 0; --p, --r) { CHECK(r != re, "backwards:" + tag, what(h + ", backwards to " + std::to_string(p))); CHECK(&*r == data + s.offset(p), "backwards:" + tag, what(h + ", backwards to " + std::to_string(p))); }
        CHECK(r == re, "backwards:" + tag, what(h + ", backwards does not end"));
    }
    ctx.outcome(tag);
}

Shape shape(mc::Ctx& ctx, int most)
{
    Shape s; s.continuous = ctx.choose(most + 1, "continuous"); s.blocks = ctx.choose(most + 1, "blocks"); s.gap = ctx.choose(most, "gap");
    return s;
}

template <bool Const> void storage_walks(mc::Ctx& ctx)
{
    typedef Storage<double, false, false, 0, true> St;
    Shape s = shape(ctx, ctx.tier(3, 4));
    ctx.shard();
    std::vector<double> memory(40, -1.0);
    double* data = memory.data() + 4;
    St st(data, s.continuous, s.blocks, s.gap);
    CHECK(long(st.size()) == s.n() && st.getDataPointer() == data, "size", "");
    if constexpr (Const) { St const& c = st; typedef St::const_iterator It; walk<It>(ctx, s, [&](int k) -> It { switch (k) { case 0: return c.begin(); case 1: return c.end(); case 2: return c.rbegin(); default: return c.rend(); } }, data, "const", ctx.tier(4, 6)); }
    else { typedef St::iterator It; walk<It>(ctx, s, [&](int k) -> It { switch (k) { case 0: return st.begin(); case 1: return st.end(); case 2: return st.rbegin(); default: return st.rend(); } }, data, "mutable", ctx.tier(4, 6)); }
}
mc::Register r1("walks", storage_walks<false>, true), r2("const walks", storage_walks<true>, true);

/// whole passes by the algorithms of the standard library; writing hits the stripes only
SCENARIO_SHARDED(algorithms)
{
    typedef Storage<double, false, false, 0, true> St;
    Shape s;
    int kind = ctx.choose(3, "kind");
    if (kind == 1) { auto x = wide_shape(ctx, ctx.tier(4225, 20000)); s.continuous = long(x.first); s.blocks = long(x.second); s.gap = ctx.pick(std::vector<int>{ 0, 1, 7, 16 }, "gap"); }
    else if (kind == 2) { static const std::vector<std::array<long, 3>> far{ { 1, 33000, 1 }, { 1, 66000, 2 }, { 2, 33000, 0 }, { 33000, 2, 1 }, { 66000, 2, 3 }, { 1, 3, 33000 }, { 2, 4, 66000 }, { 1, 300, 300 } }; auto const& x = ctx.pick(far, "far"); s.continuous = x[0]; s.blocks = x[1]; s.gap = x[2]; }
    else s = shape(ctx, ctx.tier(4, 5));
    ctx.shard();
    std::vector<double> memory((s.continuous + s.gap) * s.blocks + 16, -1.0), expected(memory), order;
    double* data = memory.data() + 4;
    for (long k = 0; k < s.n(); ++k) { data[s.offset(k)] = 100 + k; order.push_back(100 + k); }
    St first(data, s.continuous, s.blocks, s.gap), st; St const& c = st;
    switch (ctx.choose(3, "storage")) { case 0: st = first; break; case 1: { St t(first); using std::swap; swap(st, t); break; } case 2: st = first; { St& self = st; st = self; } break; }
    std::string where = "stripes of " + std::to_string(s.continuous) + ", " + std::to_string(s.blocks) + " blocks, gap " + std::to_string(s.gap);
    CHECK((std::vector<double>(st.begin(), st.end()) == order), "forwards", where);
    CHECK((std::vector<double>(c.begin(), c.end()) == order), "const forwards", where);
    CHECK(std::distance(c.begin(), c.end()) == s.n(), "distance", where);
    { St::const_iterator a(st.begin()), b(st.end()); CHECK((std::vector<double>(a, b) == order), "converted iterators", where); }
    std::vector<double> reverse(order.rbegin(), order.rend()), got;
    for (auto i = st.rbegin(); i != st.rend(); --i) { got.push_back(*i); CHECK(got.size() <= order.size(), "backwards", where + " does not end"); }
    CHECK(got == reverse, "backwards", where);
    got.clear();
    for (auto i = c.rbegin(); i != c.rend(); --i) { got.push_back(*i); CHECK(got.size() <= order.size(), "const backwards", where + " does not end"); }
    CHECK(got == reverse, "const backwards", where);
    { typedef std::reverse_iterator<St::iterator> R; CHECK((std::vector<double>(R(st.end()), R(st.begin())) == reverse), "reverse_iterator", where); }
    int how = ctx.choose(3, "writing");
    std::vector<double> after(memory);
    double x = 0;
    if (how == 0) { for (auto& e : st) e = ++x; x = 0; for (long k = 0; k < s.n(); ++k) after[4 + s.offset(k)] = ++x; }
    if (how == 1) { for (auto i = st.end(); i != st.begin();) *--i = ++x; x = 0; for (long k = s.n() - 1; k >= 0; --k) after[4 + s.offset(k)] = ++x; }
    if (how == 2) { std::reverse(st.begin(), st.end()); for (long k = 0; k < s.n(); ++k) after[4 + s.offset(k)] = reverse[k]; }
    CHECK(memory == after, "writing", where + " way " + std::to_string(how));
    ctx.state(mc::Hash()(s.continuous)(s.blocks)(s.gap)(how));
    ctx.outcome("written " + std::to_string(how));
}

/// the iterators of every view of a matrix
SCENARIO_SHARDED(views)
{
    size_t R = ctx.choose(ctx.tier(4, 5), "rows") + 1, C = ctx.choose(ctx.tier(4, 5), "columns") + 1;
    size_t r = ctx.choose(int(R), "view rows") + 1, c = ctx.choose(int(C), "view columns") + 1, i0 = ctx.choose(int(R - r + 1), "first row"), j0 = ctx.choose(int(C - c + 1), "first column");
    ctx.shard();
    Ref a = make(R, C, poscode);
    D<double> m = dense<double>(a);
    D<double, SubCM> v(m, r, c, i0, j0); D<double, SubCM> const& cv = v;
    Shape s{ long(r), long(c), long(R - r) };
    double* data = m.getDataPointer() + i0 + j0 * R;
    if (ctx.flag()) { typedef D<double, SubCM>::iterator It; walk<It>(ctx, s, [&](int k) -> It { switch (k) { case 0: return v.begin(); case 1: return v.end(); case 2: return v.rbegin(); default: return v.rend(); } }, data, "view", ctx.tier(1, 3)); }
    else { typedef D<double, SubCM>::const_iterator It; walk<It>(ctx, s, [&](int k) -> It { switch (k) { case 0: return cv.begin(); case 1: return cv.end(); case 2: return cv.rbegin(); default: return cv.rend(); } }, data, "const view", ctx.tier(1, 3)); }
}

} // namespace
