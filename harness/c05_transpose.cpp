// C05: transposition moves (i,j) to (j,i) and is an involution.
#define MC_MAIN
#include "bb.h"
using namespace bb;

namespace {
const double inf = std::numeric_limits<double>::infinity();
template <class T> bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof(T)) == 0; }

template <class T, class P> void check_dense(mc::Ctx& ctx, size_t r, size_t c, int rot)
{
    std::string tag = kind<D<T, P>>();
    ctx.note(tag);
    static const std::vector<double> sp{ 0.0, -0.0, std::nan(""), inf, -inf, 1.0 / 3.0, std::ldexp(1.0, -140), 3e38 };
    D<T, P> m(r, c);
    auto val = [&](size_t i, size_t j) { return rot == 0 ? T(poscode(i, j)) : T(sp[(i * c + j + rot) % sp.size()]); };
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = val(i, j);
    D<T, P> t = transpose(m);
    CHECK(t.getNbRows() == c && t.getNbColumns() == r && t.getSize() == r * c, "dim:" + tag, "transpose of " + std::to_string(r) + "x" + std::to_string(c) + " is " + std::to_string(t.getNbRows()) + "x" + std::to_string(t.getNbColumns()));
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
        CHECK(same(t(j, i), val(i, j)), "value:" + tag, "(" + std::to_string(i) + "," + std::to_string(j) + ") of a " + std::to_string(r) + "x" + std::to_string(c) + " matrix is not found at (j,i) of the transpose");
    D<T, P> tt = transpose(t);
    CHECK(tt.getNbRows() == r && tt.getNbColumns() == c, "involution:" + tag, "transposing twice changes the dimensions");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) {
        CHECK(same(tt(i, j), val(i, j)), "involution:" + tag, "transposing twice changes an element");
        CHECK(same(m(i, j), val(i, j)), "source:" + tag, "transposing changes the original");
    }
    t = T(5);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) CHECK(same(m(i, j), val(i, j)), "alias:" + tag, "the transpose shares memory with the original");
    ctx.state(mc::Hash()(tag)(r)(c)(rot));
}

template <class T, class P> void check_sparse(mc::Ctx& ctx, Ref const& a)
{
    std::string tag = kind<S<T, P>>();
    ctx.note(tag);
    S<T, P> m = sparse<T, P>(a);
    S<T, P> t = transpose(m);
    CHECK(t.getNbRows() == a.c && t.getNbColumns() == a.r && t.getSize() == a.r * a.c, "dim:" + tag, "wrong dimensions");
    CHECK(canonical(t).empty(), "canonical:" + tag, canonical(t) + " for the transpose of " + str(a));
    CHECK(bb::ref(t) == a.t() && t.nnz() == a.nnz(), "value:" + tag, str(bb::ref(t)) + " is not the transpose of " + str(a));
    S<T, P> tt = transpose(t);
    CHECK(canonical(tt).empty() && bb::ref(tt) == a, "involution:" + tag, "transposing twice turns " + str(a) + " into " + str(bb::ref(tt)));
    CHECK(std::equal(m.begin(), m.end(), tt.begin(), tt.end()) && std::equal(m.beginKey(), m.endKey(), tt.beginKey(), tt.endKey()) && std::equal(m.beginOffset(), m.endOffset(), tt.beginOffset(), tt.endOffset()),
        "involution-storage:" + tag, "transposing twice changes the stored arrays");
    CHECK(canonical(m).empty() && bb::ref(m) == a, "source:" + tag, "transposing changes the original");
    for (auto& x : t) x = T(5);
    CHECK(bb::ref(m) == a, "alias:" + tag, "the transpose shares memory with the original");
    // explicitly stored zeros and special values move as well
    if (m.nnz()) {
        *m.begin() = T(0);
        S<T, P> z = transpose(m), zz = transpose(z);
        CHECK(z.nnz() == m.nnz() && std::equal(m.begin(), m.end(), zz.begin(), zz.end()), "stored-zero:" + tag, "a stored zero gets lost");
    }
    ctx.state(mc::Hash()(tag)(hash(a)));
}
void all_sparse(mc::Ctx& ctx, Ref const& a) { check_sparse<double, CM>(ctx, a); check_sparse<float, CM>(ctx, a); check_sparse<double, RM>(ctx, a); check_sparse<float, RM>(ctx, a); }
void all_dense(mc::Ctx& ctx, size_t r, size_t c, int rot) { check_dense<double, CM>(ctx, r, c, rot); check_dense<float, CM>(ctx, r, c, rot); check_dense<double, RM>(ctx, r, c, rot); check_dense<float, RM>(ctx, r, c, rot); }
}

SCENARIO_SHARDED(dense_matrices)
{
    int n = ctx.tier(12, 40);
    size_t r = ctx.range(0, n, "rows"), c = ctx.range(0, n, "columns");
    ctx.shard();
    all_dense(ctx, r, c, ctx.choose(9, "values"));
    ctx.outcome("dense");
}
SCENARIO_SHARDED(dense_large)
{
    static const std::vector<size_t> sz{ 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 260, 300 };
    size_t r = ctx.pick(sz), c = ctx.pick(sz);
    if (r * c > 129 * 129) throw mc::Prune();
    ctx.shard();
    all_dense(ctx, r, c, 0);
    ctx.outcome("large dense");
}
SCENARIO_SHARDED(sparse_patterns)
{
    size_t r = ctx.range(0, 3, "rows"), c = ctx.range(0, 3, "columns");
    unsigned long bits = ctx.choose(1 << (r * c), "pattern");
    ctx.shard();
    all_sparse(ctx, pattern(r, c, bits));
    ctx.outcome("sparse");
}
SCENARIO_SHARDED(sparse_patterns_4)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {2, 4}, {4, 2}, {2, 5}, {5, 2}, {3, 4}, {4, 3} };
    static const std::vector<std::pair<size_t, size_t>> sht{ {2, 4}, {4, 2}, {2, 5}, {5, 2}, {3, 4}, {4, 3}, {2, 7}, {7, 2}, {4, 4}, {3, 5} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    unsigned long bits = ctx.choose(1 << (s.first * s.second), "pattern");
    ctx.shard();
    all_sparse(ctx, pattern(s.first, s.second, bits));
    ctx.outcome("sparse");
}
SCENARIO_SHARDED(sparse_large)
{
    static const std::vector<size_t> sz{ 1, 4, 7, 16, 33, 64, 65, 260, 300 };
    size_t r = ctx.pick(sz), c = ctx.pick(sz);
    if (r * c > 129 * 129) throw mc::Prune();
    int w = ctx.choose(nb_structured, "pattern");
    ctx.shard();
    all_sparse(ctx, structured(r, c, w, poscode));
    ctx.outcome("large sparse");
}

// more rows or columns than fit into 16 bits
SCENARIO_SHARDED(very_long)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {1, 70000}, {70000, 1}, {2, 66000}, {66000, 2} };
    auto s = ctx.pick(sh);
    int w = ctx.choose(nb_structured, "pattern"), k = ctx.choose(4, "kind");
    ctx.shard();
    Ref a = structured(s.first, s.second, w, wcode);
    if (k == 0) check_sparse<double, CM>(ctx, a);
    if (k == 1) check_sparse<float, RM>(ctx, a);
    if (k == 2 && w == 0) check_dense<double, CM>(ctx, s.first, s.second, 1);
    if (k == 3 && w == 0) check_dense<float, RM>(ctx, s.first, s.second, 1);
    ctx.outcome("very long");
}
