// C36: literals and dimensions are taken exactly or refused.
#define MC_MAIN
#include "blocked.h"
using namespace bb;

namespace {

/// the list { a[0], ..., a[n-1] } of n <= 5 elements; f gets it while it lives
template <class E, class F> void as_list(std::vector<E> const& a, F const& f)
{
    switch (a.size()) {
    case 0: { std::initializer_list<E> l{}; f(l); break; }
    case 1: f({ a[0] }); break;
    case 2: f({ a[0], a[1] }); break;
    case 3: f({ a[0], a[1], a[2] }); break;
    case 4: f({ a[0], a[1], a[2], a[3] }); break;
    case 5: f({ a[0], a[1], a[2], a[3], a[4] }); break;
    default: throw std::logic_error("list is too long");
    }
}
/// the nested list of all rows
template <class E> void nested(std::vector<std::vector<E>> const& rows, std::function<void(std::initializer_list<std::initializer_list<E>>)> const& f)
{
    typedef std::initializer_list<E> L;
    std::vector<L> made;
    std::function<void(size_t)> go = [&](size_t i) {
        if (i == rows.size()) { as_list<L>(made, [&](std::initializer_list<L> l) { f(l); }); return; }
        as_list<E>(rows[i], [&](L l) { made.push_back(l); go(i + 1); made.pop_back(); });
    };
    go(0);
}

template <class M> void literal(mc::Ctx& ctx, std::vector<size_t> const& lengths, std::string const& tag)
{
    typedef typename M::value_type T;
    std::vector<std::vector<T>> rows; bool ragged = false; std::string s;
    for (size_t i = 0; i < lengths.size(); ++i) {
        rows.emplace_back(); for (size_t j = 0; j < lengths[i]; ++j) rows.back().push_back(T(code(i, j)));
        ragged = ragged || lengths[i] != lengths[0]; s += (i ? "," : "") + std::to_string(lengths[i]);
    }
    ctx.note(tag + " rows of " + s);
    bool refused = false;
    nested<T>(rows, [&](std::initializer_list<std::initializer_list<T>> l) {
        try {
            M m(l);
            CHECK(!ragged, "accepted:" + tag, "a literal with rows of " + s + " elements became a " + std::to_string(m.getNbRows()) + "x" + std::to_string(m.getNbColumns()) + " matrix");
            size_t c = lengths.empty() ? 0 : lengths[0];
            CHECK(m.getNbRows() == lengths.size() && m.getNbColumns() == c && m.getSize() == lengths.size() * c, "dimension:" + tag, "rows of " + s);
            for (size_t i = 0; i < lengths.size(); ++i) for (size_t j = 0; j < c; ++j) CHECK(m(i, j) == T(code(i, j)), "element:" + tag, "element " + std::to_string(i) + "," + std::to_string(j) + ", rows of " + s);
            M n(m); CHECK(bb::ref(n) == bb::ref(m), "copy:" + tag, s);
        } catch (std::exception const&) { refused = true; }
    });
    CHECK(refused == ragged, "refused:" + tag, "a literal with rows of " + s + " elements was " + (refused ? "refused" : "accepted"));
    ctx.outcome(tag + (refused ? ":refused" : ":accepted"));
}

/// literals of every combination of row lengths
SCENARIO_SHARDED(dense_literals)
{
    size_t n = ctx.choose(ctx.tier(5, 6), "rows"), longest = ctx.tier(4, 5);
    std::vector<size_t> l; for (size_t i = 0; i < n; ++i) { l.push_back(ctx.choose(longest + 1, "length")); if (i == 0) ctx.shard(); }
    if (n == 0) ctx.shard();
    literal<D<double>>(ctx, l, "double,CM"); literal<D<double, RM>>(ctx, l, "double,RM"); literal<D<float>>(ctx, l, "float,CM"); literal<D<float, RM>>(ctx, l, "float,RM"); literal<D<int>>(ctx, l, "int,CM");
    std::string s; for (size_t x : l) s += char('0' + x);
    ctx.state(mc::Hash()(s));
}

/// literals of blocks of every combination of shapes and types
void blocks(mc::Ctx& ctx, std::vector<std::vector<std::pair<size_t, size_t>>> const& shape, int types)
{
    std::vector<std::vector<DynamicMatrix>> rows; std::vector<std::vector<Ref>> refs; std::string s; bool fits = true;
    for (size_t i = 0; i < shape.size(); ++i) {
        rows.emplace_back(); refs.emplace_back(); s += i ? " | " : "";
        fits = fits && shape[i].size() == shape[0].size();
        for (size_t j = 0; j < shape[i].size(); ++j) {
            size_t r = shape[i][j].first, c = shape[i][j].second;
            fits = fits && r == shape[i][0].first && (j >= shape[0].size() || c == shape[0][j].second);
            int t = types == 0 ? 1 : int((types + 2 * i + j) % 7);
            Ref a = t == 0 ? Ref(r, c) : make(r, c, [&](size_t k, size_t l) { return code(k + 3 * i, l + 3 * j); });
            refs.back().push_back(a); rows.back().push_back(dynamic(t, a)); s += " " + std::to_string(r) + "x" + std::to_string(c) + " " + dyn_names[t];
        }
    }
    ctx.note("blocks" + s);
    bool refused = false;
    nested<DynamicMatrix>(rows, [&](std::initializer_list<std::initializer_list<DynamicMatrix>> l) {
        try {
            BlockedDenseMatrix b(l);
            CHECK(fits, "accepted:blocks", "blocks which do not fit were accepted:" + s);
            size_t R = 0, C = 0; for (auto& x : shape) if (!x.empty()) R += x[0].first; if (!shape.empty()) for (auto& x : shape[0]) C += x.second;
            CHECK(b.getNbRows() == shape.size() && b.getNbColumns() == (shape.empty() ? 0 : shape[0].size()), "dimension:blocks", s);
            CHECK(b.getUnblockedRows() == R && b.getUnblockedColumns() == C, "unblocked:blocks", std::to_string(b.getUnblockedRows()) + "x" + std::to_string(b.getUnblockedColumns()) + " instead of " + std::to_string(R) + "x" + std::to_string(C) + ":" + s);
            for (size_t i = 0; i < shape.size(); ++i) for (size_t j = 0; j < shape[i].size(); ++j) CHECK(b(i, j) == rows[i][j], "element:blocks", s);
            Ref e(R, C);
            for (size_t i = 0, ro = 0; i < shape.size(); ++i) {
                for (size_t j = 0, co = 0; j < shape[i].size(); ++j) { for (size_t k = 0; k < shape[i][j].first; ++k) for (size_t m = 0; m < shape[i][j].second; ++m) e(ro + k, co + m) = refs[i][j](k, m); co += shape[i][j].second; }
                if (!shape[i].empty()) ro += shape[i][0].first;
            }
            Ref x = bb::ref(D<double>(b));
            CHECK(x == e, "unblock:blocks", str(x) + " instead of " + str(e) + ":" + s);
        } catch (std::exception const&) { refused = true; }
    });
    CHECK(refused == !fits, "refused:blocks", std::string(refused ? "refused:" : "accepted:") + s);
    for (size_t i = 0; i < rows.size(); ++i) for (size_t j = 0; j < rows[i].size(); ++j) {
        CHECK(rows[i][j].use_count() == 1, "owners:blocks", "a block is still held after the matrix is gone:" + s);
        CHECK(bb::ref(rows[i][j]) == refs[i][j], "block:blocks", "a block changed:" + s);
    }
    ctx.state(mc::Hash()(s));
    ctx.outcome(refused ? "blocks:refused" : "blocks:accepted");
}
// two rows of two blocks, one odd shape anywhere
SCENARIO_SHARDED(square_of_blocks)
{
    int m = ctx.tier(3, 4);
    std::vector<std::vector<std::pair<size_t, size_t>>> shape(2, std::vector<std::pair<size_t, size_t>>(2));
    size_t n = 0;
    for (auto& row : shape) for (auto& b : row) { b.first = ctx.range(0, m - 1, "rows"); b.second = ctx.range(0, m - 1, "columns"); if (++n == 2) ctx.shard(); }
    blocks(ctx, shape, ctx.choose(ctx.tier(3, 8), "types"));
}
// up to three rows of up to three blocks, every block row with its own number of blocks; at most one block with a shape of its own
SCENARIO_SHARDED(rows_of_blocks)
{
    static const size_t heights[] = { 2, 1, 3 }, widths[] = { 1, 3, 2 };
    size_t n = ctx.choose(4, "rows of blocks");
    std::vector<std::vector<std::pair<size_t, size_t>>> shape(n); size_t total = 0;
    for (size_t i = 0; i < n; ++i) { size_t k = ctx.choose(4, "blocks in the row"); for (size_t j = 0; j < k; ++j) shape[i].emplace_back(heights[i], widths[j]); total += k; if (i == 0) ctx.shard(); }
    if (n == 0) ctx.shard();
    size_t odd = ctx.choose(total + 1, "odd block");
    if (odd) { int how = ctx.choose(5, "odd shape"); size_t k = 0; for (auto& row : shape) for (auto& b : row) if (++k == odd) { if (how == 0) ++b.first; else if (how == 1) ++b.second; else if (how == 2) b.first = 0; else if (how == 3) b.second = 0; else std::swap(b.first, b.second); } }
    blocks(ctx, shape, ctx.choose(ctx.tier(3, 8), "types"));
}


// ------------------------------------------------------------------ dimensions
/// Sizes from nothing to the largest number there is. Arrays are given up to one megabyte.
const size_t megabyte = 1u << 20;
struct Limit { size_t old; Limit() : old(blaze::verif::limit()) { blaze::verif::limit() = megabyte; } ~Limit() { blaze::verif::limit() = old; } };
std::vector<size_t> sizes()
{
    std::vector<size_t> v{ 0, 1, 2, 3, 5 };
    const size_t one = 1;
    for (int b : { 31, 32, 33, 42, 60, 61, 62, 63 }) for (int d : { -1, 0, 1 }) v.push_back((one << b) + d);
    v.push_back(~size_t(0) - 1); v.push_back(~size_t(0)); v.push_back(6148914691236517206u /* two thirds of 2^63: its triple is 2^64 + 2 */);
    return v;
}
typedef unsigned __int128 Big;

struct Shaped { virtual ~Shaped() {} virtual void resize(size_t r, size_t c) = 0; virtual size_t rows() = 0; virtual size_t columns() = 0; virtual size_t size() = 0; virtual std::string content() = 0; virtual bool complete() = 0; };
template <class M> struct DenseShape : Shaped
{
    M m;
    DenseShape(size_t r, size_t c) : m(r, c) {}
    DenseShape() : m(dense<typename M::value_type, typename M::parameter>(make(2, 3, code))) {}
    void resize(size_t r, size_t c) override { m.resize(r, c); }
    size_t rows() override { return m.getNbRows(); } size_t columns() override { return m.getNbColumns(); } size_t size() override { return m.getSize(); }
    std::string content() override { return str(bb::ref(m)); }
    bool complete() override { for (auto& x : m) x = 1; return size_t(m.end() - m.begin()) == m.getSize(); }
};
template <class M> struct SparseShape : Shaped
{
    M m;
    SparseShape(size_t r, size_t c) : m(r, c) {}
    SparseShape() : m(sparse<typename M::value_type>(make(2, 3, code))) {}
    void resize(size_t r, size_t c) override { m.resize(r, c); }
    size_t rows() override { return m.getNbRows(); } size_t columns() override { return m.getNbColumns(); } size_t size() override { return m.getSize(); }
    std::string content() override { return str(bb::ref(m)); }
    bool complete() override { return size_t(m.end() - m.begin()) == m.getSize() && size_t(m.endKey() - m.beginKey()) == m.getSize() && size_t(m.endOffset() - m.beginOffset()) == m.getMinorDimension() + 1; }
};
struct ZeroShape : Shaped
{
    Z m;
    ZeroShape(size_t r = 2, size_t c = 3) : m(r, c) {}
    void resize(size_t r, size_t c) override { m.resize(r, c); }
    size_t rows() override { return m.getNbRows(); } size_t columns() override { return m.getNbColumns(); } size_t size() override { return m.getSize(); }
    std::string content() override { return std::to_string(m.getNbRows()) + "x" + std::to_string(m.getNbColumns()); }
    bool complete() override { return true; }
};
struct BlockedShape : Shaped
{
    BlockedDenseMatrix m;
    BlockedShape(size_t r, size_t c) : m(r, c, r, c) {}
    BlockedShape() : m(2, 3, 2, 3) { for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) m(i, j) = dynamic(6, make(1, 1, [&](size_t, size_t) { return code(i, j); })); }
    void resize(size_t r, size_t c) override { m.resize(r, c, r, c); }
    size_t rows() override { return m.getNbRows(); } size_t columns() override { return m.getNbColumns(); } size_t size() override { return m.getSize(); }
    std::string content() override { return m.getNbRows() == 2 && m.getUnblockedRows() == 2 && m.getUnblockedColumns() == 3 ? str(bb::ref(D<double>(m))) : "?"; }
    bool complete() override { return size_t(m.end() - m.begin()) == m.getSize(); }
};
char const* const kinds[] = { "dense double", "dense float", "dense int", "dense row-major", "sparse double", "sparse float", "zero", "blocked" };
Shaped* shaped(int k, size_t r, size_t c)
{
    switch (k) { case 0: return new DenseShape<D<double>>(r, c); case 1: return new DenseShape<D<float>>(r, c); case 2: return new DenseShape<D<int>>(r, c); case 3: return new DenseShape<D<double, RM>>(r, c);
        case 4: return new SparseShape<S<double>>(r, c); case 5: return new SparseShape<S<float>>(r, c); case 6: return new ZeroShape(r, c); default: return new BlockedShape(r, c); }
}
Shaped* shaped(int k)
{
    switch (k) { case 0: return new DenseShape<D<double>>(); case 1: return new DenseShape<D<float>>(); case 2: return new DenseShape<D<int>>(); case 3: return new DenseShape<D<double, RM>>();
        case 4: return new SparseShape<S<double>>(); case 5: return new SparseShape<S<float>>(); case 6: return new ZeroShape(); default: return new BlockedShape(); }
}
SCENARIO_SHARDED(dimensions)
{
    static const auto v = sizes();
    size_t r = ctx.pick(v, "rows"), c = ctx.pick(v, "columns");
    ctx.shard();
    int k = ctx.choose(8, "kind"), way = ctx.choose(3, "way");
    Big n = Big(r) * c; bool exists = n <= ~size_t(0), few = n <= 1u << 14;
    Limit limit;
    if ((k == 4 || k == 5) && c == ~size_t(0)) throw mc::Prune();   // the number of offsets cannot be represented
    if ((k == 4 || k == 5) && c > 1u << 14) few = false;
    std::string s = std::to_string(r) + "x" + std::to_string(c) + " " + kinds[k];
    ctx.note(s);
    std::unique_ptr<Shaped> m; bool thrown = false; std::string before;
    size_t alive = live();
    if (way != 0) { m.reset(shaped(k)); before = m->content(); alive = live(); }
    try { if (way == 0) m.reset(shaped(k, r, c)); else if (way == 1) m->resize(r, c); else { std::unique_ptr<Shaped> other(shaped(k, r, c)); m = std::move(other); } }
    catch (std::exception const&) { thrown = true; }
    CHECK(thrown || exists, std::string("dimensions:") + kinds[k], "a matrix of " + s + " was made, its number of elements cannot be represented");
    CHECK(!thrown || !(few || (k == 6 && exists)), std::string("refused:") + kinds[k], "a matrix of " + s + " was refused");
    if (thrown) {
        CHECK(live() == long(alive), std::string("memory:") + kinds[k], "memory is lost: " + s);
        if (way != 0) CHECK(m->rows() == 2 && m->columns() == 3 && m->size() == 6 && m->content() == before, std::string("changed:") + kinds[k], "a refused resize to " + s + " left " + std::to_string(m->rows()) + "x" + std::to_string(m->columns()));
    } else {
        CHECK(m->rows() == r && m->columns() == c && m->size() == size_t(n), std::string("dimensions:") + kinds[k], s + " became " + std::to_string(m->rows()) + "x" + std::to_string(m->columns()) + " with " + std::to_string(m->size()) + " elements");
        CHECK(m->complete(), std::string("elements:") + kinds[k], "not every element of " + s + " has memory");
    }
    ctx.state(mc::Hash()(r)(c)(k)(way));
    ctx.outcome(std::string(kinds[k]) + (thrown ? ":refused" : ":accepted"));
}
/// the product of a matrix without columns and a matrix without rows has as many elements as any
SCENARIO_SHARDED(products)
{
    static const auto v = sizes();
    size_t r = ctx.pick(v, "rows"), c = ctx.pick(v, "columns");
    ctx.shard();
    Big n = Big(r) * c;
    if (!r || !c) throw mc::Prune();
    Limit limit;
    int k = ctx.choose(3, "kind"); std::string s = std::to_string(r) + "x" + std::to_string(c);
    ctx.note(s);
    bool thrown = false; size_t rows = 0, columns = 0, elements = 0;
    auto go = [&](auto const& a, auto const& b) { auto x = (a * b).template execute<Native>(); rows = x.getNbRows(); columns = x.getNbColumns(); elements = x.end() - x.begin(); };
    try { switch (k) {
        case 0: go(D<double>(r, 0), D<double>(0, c)); break;
        case 1: go(D<float>(r, 0), D<float>(0, c)); break;
        case 2: go(D<double>(r, 0), D<float>(0, c)); break;
    } } catch (std::exception const&) { thrown = true; }
    CHECK(thrown == (n > 1u << 14), "product", "the product of " + std::to_string(r) + "x0 and 0x" + std::to_string(c) + (thrown ? " was refused" : " was taken"));
    if (!thrown) CHECK(rows == r && columns == c && elements == size_t(n), "product", s + " became " + std::to_string(rows) + "x" + std::to_string(columns) + " with " + std::to_string(elements) + " elements");
    ctx.state(mc::Hash()(r)(c)(k));
    ctx.outcome(thrown ? "product:refused" : "product:accepted");
}

} // namespace
