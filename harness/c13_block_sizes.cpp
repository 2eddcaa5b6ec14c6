// C13: generated block sizes partition the dimensions.
#define MC_MAIN
#include "blocked.h"
#include <BlasBooster/Core/BlockSizeGenerator.h>
using namespace bb;

namespace {

typedef std::vector<size_t> Sizes;

/// block sizes for a dimension of detect.size()+1
template <class T> void partition(mc::Ctx& ctx, Sizes const& s, std::vector<T> const& detect, size_t min, size_t max, std::string const& tag)
{
    size_t n = detect.size() + 1;
    auto what = [&] { std::ostringstream o; o << bb::str(s) << " for dimension " << n << " min " << min << " max " << max << " detected"; for (auto x : detect) o << " " << x; return o.str(); };
    std::set<size_t> borders; size_t sum = 0;
    for (size_t x : s) { CHECK(x > 0, "empty block:" + tag, what()); sum += x; borders.insert(sum); }
    CHECK(sum == n, "sum:" + tag, what());
    for (size_t x : s) {
        CHECK(x >= std::min(min, n), "too small:" + tag, what());
        CHECK(x <= max, "too large:" + tag, what());
    }
    // the border that is detected most clearly is used if it leaves blocks of the minimum size
    if (n > max) {
        size_t best = 0, nb = 0; T v = 0;
        for (size_t p = std::max<size_t>(min, 1); p + std::max<size_t>(min, 1) <= n; ++p) {
            if (nb == 0 || detect[p - 1] > v) { v = detect[p - 1]; best = p; nb = 1; } else if (detect[p - 1] == v) ++nb;
        }
        if (nb == 1) CHECK(borders.count(best), "border:" + tag, "not split at " + std::to_string(best) + ": " + what());
        // among equally clear borders one of the most central ones
        if (nb > 1) {
            size_t central = 0; bool used = false;
            for (size_t p = 1; p < n; ++p) if (detect[p - 1] == v && p >= min && n - p >= min) central = std::max(central, std::min(p, n - p));
            for (size_t p = 1; p < n; ++p) if (detect[p - 1] == v && std::min(p, n - p) == central) used = used || borders.count(p);
            CHECK(used, "central:" + tag, what());
        }
    }
}

std::vector<std::pair<size_t, size_t>> const limits{ {0, 0}, {0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 6}, {3, 8} };

// all detection arrays over three values
template <class T> void detect(mc::Ctx& ctx)
{
    auto l = ctx.pick(limits);
    if (l.second == 0) l.second = 1;
    int n = ctx.range(0, ctx.tier(8, 11), "size");
    ctx.shard();
    std::vector<T> d(n);
    for (auto& x : d) x = T(ctx.choose(3, "value"));
    std::string tag = "get_block_size";
    ctx.note(tag);
    auto s = BlockSizeGenerator(l.first, l.second).get_block_size(d);
    partition(ctx, s, d, l.first, l.second, tag);
    ctx.state(mc::Hash()(tag)(d)(l.first)(l.second));
    ctx.outcome(bb::str(s));
}
mc::Register r1("detection size_t", detect<size_t>, true);
mc::Register r2("detection double", detect<double>, true);

// few significant positions in long arrays
void sparse_detect(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> big{ {2, 5}, {4, 9}, {5, 10}, {7, 20}, {10, 30} };
    auto l = ctx.pick(big);
    int n = ctx.pick(std::vector<int>{ 19, 24, 39 });
    int p = ctx.choose(n, "first"), q = ctx.choose(n, "second"), v = ctx.choose(3, "values");
    ctx.shard();
    std::vector<float> d(n, 0.0f);
    d[p] += 5; d[q] += v == 0 ? 5 : v == 1 ? 2 : 9;
    ctx.note("sparse");
    partition(ctx, BlockSizeGenerator(l.first, l.second).get_block_size(d), d, l.first, l.second, "long array");
    ctx.state(mc::Hash()("long")(d)(l.first)(l.second));
}
mc::Register r3("long arrays", sparse_detect, true);

// long arrays with many borders, limits of every size
void long_arrays(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> big{ {0, 1}, {1, 2}, {1, 16}, {7, 15}, {8, 16}, {8, 64}, {16, 33}, {32, 64}, {33, 100}, {100, 200}, {0, 1000} };
    auto l = ctx.pick(big, "limits");
    
    size_t n = ctx.pick(big_sides(true), "dimension");
    int v = ctx.choose(ctx.tier(8, 16), "values");
    ctx.shard();
    std::vector<size_t> d(n - 1);
    for (size_t i = 0; i < d.size(); ++i) switch (v) {
        case 0: d[i] = 0; break;
        case 1: d[i] = i; break;
        case 2: d[i] = n - i; break;
        case 3: d[i] = i % 8 == 7; break;
        case 4: d[i] = (i * 37) % 101; break;
        case 5: d[i] = i == 0 || i + 2 == n ? 9 : i == n / 2 ? 5 : 0; break;
        case 6: d[i] = (i % 16 == 15) * 2 + (i % 5 == 4); break;
        case 7: d[i] = std::min(i, n - i); break;
        default: d[i] = (i * i * (v - 3) + i / 3) % (v * v);
        }
    ctx.note("long");
    partition(ctx, BlockSizeGenerator(l.first, l.second).get_block_size(d), d, l.first, l.second, "long array");
    ctx.state(mc::Hash()("many")(d)(l.first)(l.second));
}
mc::Register r8("long arrays with many borders", long_arrays, true);

int exponent(double x) { int e; std::frexp(x, &e); return e; }
template <class T> std::vector<T> rows_of(Ref const& a) { std::vector<T> d(a.r - 1, 0); for (size_t i = 0; i + 1 < a.r; ++i) for (size_t j = 0; j < a.c; ++j) d[i] += std::abs(exponent(T(a(i, j))) - exponent(T(a(i + 1, j)))); return d; }
template <class T> std::vector<T> cols_of(Ref const& a) { return rows_of<T>(a.t()); }

template <class T, class P> void matrix(mc::Ctx& ctx, Ref const& a, size_t min, size_t max, std::string const& tag)
{
    ctx.note(tag);
    auto m = dense<T, P>(a);
    BlockSizeGenerator g(min, max);
    auto [rd, cd] = g.get_detection_arrays(m);
    auto er = rows_of<T>(a), ec = cols_of<T>(a);
    CHECK(rd == er, "row detection:" + tag, "row detection of " + str(a));
    CHECK(cd == ec, "column detection:" + tag, "column detection of " + str(a));
    auto [rs, cs] = g(m);
    if (a.r <= max && a.c <= max) CHECK(rs == Sizes(1, a.r) && cs == Sizes(1, a.c), "single:" + tag, "small matrix is divided: " + str(a));
    else { partition(ctx, rs, er, min, max, "rows:" + tag); partition(ctx, cs, ec, min, max, "columns:" + tag); }
    CHECK(bb::ref(m) == round_to_float(a), "changed:" + tag, "the matrix changed");
    // they block the matrix
    ctx.state(mc::Hash()(tag)(hash(a))(min)(max));
}

void matrices(mc::Ctx& ctx)
{
    int n = ctx.tier(6, 8);
    size_t r = ctx.range(1, n, "rows"), c = ctx.range(1, n, "columns");
    auto l = ctx.pick(limits);
    ctx.shard();
    if (l.second == 0) throw mc::Prune();
    int p = ctx.choose(2 * nb_structured, "pattern");
    Ref a = p < nb_structured ? structured(r, c, p) : make(r, c, [&](size_t i, size_t j) { return std::ldexp(1.0, int((i * (p - 6) + j * j * 3 + (i > r / 2) * 9 + (j > c / 3) * 5) % 17) - 8); });
    matrix<double, CM>(ctx, a, l.first, l.second, "D<double>");
    matrix<double, RM>(ctx, a, l.first, l.second, "D<double,RM>");
    matrix<float, CM>(ctx, a, l.first, l.second, "D<float>");
}
mc::Register r4("matrices", matrices, true);

void wide(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(4225, 20000), false); size_t r = shape.first, c = shape.second;
    auto l = ctx.pick(std::vector<std::pair<size_t, size_t>>{ {0, 1}, {2, 5}, {8, 16}, {16, 40}, {30, 64} });
    ctx.shard();
    int p = ctx.choose(4, "pattern");
    Ref a = p < 2 ? structured(r, c, p ? 5 : 0) : make(r, c, [&](size_t i, size_t j) { return std::ldexp(1.0, int((i * (p - 1) + j * j * 3 + (i > r / 2) * 9 + (j > c / 3) * 5) % 17) - 8); });
    matrix<double, CM>(ctx, a, l.first, l.second, "D<double>");
    matrix<double, RM>(ctx, a, l.first, l.second, "D<double,RM>");
    matrix<float, CM>(ctx, a, l.first, l.second, "D<float>");
    matrix<float, RM>(ctx, a, l.first, l.second, "D<float,RM>");
}
mc::Register r9("wide", wide, true);

void small(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 2}, {3, 3} };
    auto s = ctx.pick(sh);
    auto l = ctx.pick(std::vector<std::pair<size_t, size_t>>{ {0, 1}, {1, 2}, {0, 2} });
    unsigned long x = ctx.choose(1 << (s.first * s.second), "pattern");
    ctx.shard();
    Ref a = pattern(s.first, s.second, x, [](size_t i, size_t j) { return std::ldexp(1.0, int(i + 2 * j) + 2); });
    matrix<double, CM>(ctx, a, l.first, l.second, "D<double>");
    matrix<double, RM>(ctx, a, l.first, l.second, "D<double,RM>");
}
mc::Register r5("small patterns", small, true);

// multiplication: the three lists block both operands, and the blocked product is the product
void product(mc::Ctx& ctx)
{
    int n = ctx.tier(5, 7);
    size_t m = ctx.range(1, n, "rows"), k = ctx.range(1, n, "inner"), c = ctx.range(1, n, "columns");
    auto l = ctx.pick(std::vector<std::pair<size_t, size_t>>{ {0, 1}, {1, 2}, {1, 3}, {2, 4} });
    ctx.shard();
    int x = ctx.choose(6, "pattern A"), y = ctx.choose(6, "pattern B");
    Ref a = structured(m, k, x), b = structured(k, c, y + 2);
    std::string tag = "matrix_matrix_mult";
    ctx.note(tag);
    auto A = dense<double>(a), B = dense<double>(b);
    auto [rs, ks, cs] = BlockSizeGenerator(l.first, l.second).matrix_matrix_mult(A, B);
    auto inner = cols_of<double>(a); { auto rb = rows_of<double>(b); for (size_t i = 0; i < inner.size(); ++i) inner[i] += rb[i]; }
    partition(ctx, rs, rows_of<double>(a), l.first, l.second, "rows:" + tag);
    partition(ctx, ks, inner, l.first, l.second, "inner:" + tag);
    partition(ctx, cs, cols_of<double>(b), l.first, l.second, "columns:" + tag);
    BlockedDenseMatrix bA = BlockedMatrixGenerator()(A, rs, ks, Threshold()), bB = BlockedMatrixGenerator()(B, ks, cs, Threshold());
    CHECK(bb::ref(D<double>(bA)) == a && bb::ref(D<double>(bB)) == b, "unblock:" + tag, "blocked operands");
    BlockedDenseMatrix bC = (bA * bB).template execute<TheBestPolicy>();
    CHECK(bb::ref(D<double>(bC)) == mul(a, b), "product:" + tag, str(bb::ref(D<double>(bC))) + " instead of " + str(mul(a, b)));
    CHECK(bb::ref(A) == a && bb::ref(B) == b, "changed:" + tag, "an operand changed");
    ctx.state(mc::Hash()(tag)(hash(a))(hash(b))(l.first)(l.second));
}
mc::Register r6("products", product, true);

// factors whose magnitudes change by much and over many rows: the borders are seen in numbers of any size
void magnitudes(mc::Ctx& ctx)
{
    auto l = ctx.pick(std::vector<std::pair<size_t, size_t>>{ {0, 1}, {1, 2}, {1, 3} });
    size_t k = ctx.range(2, ctx.tier(3, 5), "inner");
    static const std::vector<int> exps{ 0, 1, 100, 128, 229, 900 };
    static const std::vector<size_t> sides{ 1, 2, 66, 300 };
    size_t m = ctx.pick(sides, "rows"), c = ctx.pick(std::vector<size_t>{ 1, 3 }, "columns");
    ctx.shard();
    std::vector<int> ea(k), eb(k);
    for (int& e : ea) e = ctx.pick(exps, "exponent of a column of A");
    int y = ctx.choose(6, "exponents of B");
    for (size_t i = 0; i < k; ++i) eb[i] = y == 0 ? 0 : y == 1 ? -exps[(i * 5 + 2) % 6] : y == 2 ? ea[i] : y == 3 ? ea[k - 1 - i] : y == 4 ? int(i) * 57 : -ea[i];
    Ref a = make(m, k, [&](size_t i, size_t j) { return std::ldexp(i % 2 ? -1.0 : 1.0, ea[j]); }), b = make(k, c, [&](size_t i, size_t j) { return std::ldexp(j % 2 ? 1.0 : -1.0, eb[i]); });
    ctx.note("magnitudes");
    auto [rs, ks, cs] = BlockSizeGenerator(l.first, l.second).matrix_matrix_mult(dense<double>(a), dense<double>(b));
    auto inner = cols_of<double>(a); { auto rb = rows_of<double>(b); for (size_t i = 0; i < inner.size(); ++i) inner[i] += rb[i]; }
    partition(ctx, rs, rows_of<double>(a), l.first, l.second, "rows:magnitudes");
    partition(ctx, ks, inner, l.first, l.second, "inner:magnitudes");
    partition(ctx, cs, cols_of<double>(b), l.first, l.second, "columns:magnitudes");
    ctx.state(mc::Hash()("magnitudes")(inner)(m)(c)(l.first));
}
mc::Register r10("products of many magnitudes", magnitudes, true);

void setting(mc::Ctx& ctx)
{
    size_t min = ctx.range(0, 6), max = ctx.range(0, 13);
    bool thrown = false;
    try { BlockSizeGenerator g(min, max); } catch (std::exception const&) { thrown = true; }
    CHECK(thrown == (2 * min > max), "setting", "min " + std::to_string(min) + " max " + std::to_string(max));
    ctx.outcome(thrown ? "rejected" : "accepted");
}
mc::Register r7("settings", setting);

} // namespace
