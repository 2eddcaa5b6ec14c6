// C01: one element - one memory cell, through every access path.
#define MC_MAIN
#include "routes.h"
using namespace bb;
using namespace routes;

namespace {

template <class M>
void all_routes(mc::Ctx& ctx, M& m, std::string const& tag, bool full)
{
    typedef typename M::value_type T;
    size_t r = m.getNbRows(), c = m.getNbColumns();
    CHECK(m.getSize() == r * c && static_cast<typename M::storage const&>(m).size() == r * c, "size:" + tag, "getSize()/size() differ from rows*columns");
    // number every element through one route
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) m(i, j) = T(poscode(i % 60, j % 60));
    int w = ctx.choose(nb_routes, "write route");
    ctx.note(tag + ":" + route_names[w]);
    if (w != 0) route<M>(w, m, [&](size_t i, size_t j, T& x) { x = T(i * 64 + j + 7); });
    else for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = T(i * 64 + j + 7);
    auto expect = [&](size_t i, size_t j) { return T(i * 64 + j + 7); };
    for (int k = 0; k < nb_routes; ++k) {
        size_t seen = 0;
        route<M>(k, m, [&](size_t i, size_t j, T& x) {
            ++seen;
            CHECK(x == expect(i, j), "read:" + tag + ":" + route_names[w] + "->" + route_names[k], "element (" + std::to_string(i) + "," + std::to_string(j) + ") of a "
                + std::to_string(r) + "x" + std::to_string(c) + " matrix written through " + route_names[w] + " reads " + std::to_string(double(x)) + " through " + route_names[k] + ", expected " + std::to_string(double(expect(i, j))));
        });
        CHECK(seen == r * c, "count:" + tag + ":" + route_names[k], "route visits " + std::to_string(seen) + " elements");
    }
    if (!full) return;
    // a single write changes exactly one element
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) {
        route<M>(w, m, [&](size_t a, size_t b, T& x) { if (a == i && b == j) x = T(-1); });
        for (size_t a = 0; a < r; ++a) for (size_t b = 0; b < c; ++b)
            CHECK(m(a, b) == (a == i && b == j ? T(-1) : expect(a, b)), "single:" + tag + ":" + route_names[w], "writing element (" + std::to_string(i) + "," + std::to_string(j) + ") changed (" + std::to_string(a) + "," + std::to_string(b) + ")");
        m(i, j) = expect(i, j);
        ctx.state(mc::Hash()(tag)(r)(c)(w)(i)(j));
    }
}

template <class T, class P>
void owning(mc::Ctx& ctx, size_t r, size_t c, bool full, std::string const& tag)
{
    int how = ctx.choose(6, "construction");
    typedef Matrix<Dense, T, P> M;
    switch (how) {
    case 0: { M m(r, c); all_routes(ctx, m, tag + ":sized", full); break; }
    case 1: {   // caller supplied memory with guard elements
        std::vector<T> mem(r * c + 2, T(99));
        { M m(r, c, mem.data() + 1); all_routes(ctx, m, tag + ":external", full);
          for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
            CHECK(mem[1 + (is_cm<M>::value ? i + j * r : i * c + j)] == m(i, j), "external-memory:" + tag, "external memory does not hold the elements"); }
        CHECK(mem.front() == T(99) && mem.back() == T(99), "external-guard:" + tag, "memory outside the external block changed");
        break; }
    case 2: { M m; m.resize(r, c); all_routes(ctx, m, tag + ":resized", full); break; }
    case 3: { M o(r + 1, c + 2); M m(o); m.resize(r, c); all_routes(ctx, m, tag + ":shrunk copy", full); break; }
    case 4: { M o(r, c); M m(std::move(o)); all_routes(ctx, m, tag + ":moved", full); break; }
    case 5: { M o(r, c); o = T(1); M m; m = o; all_routes(ctx, m, tag + ":assigned", full);
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) CHECK(o(i, j) == T(1), "alias:" + tag, "writing the copy changed the original"); break; }
    }
}

template <class T, class P> void dispatch(mc::Ctx& ctx, size_t r, size_t c, bool full, std::string t) { owning<T, P>(ctx, r, c, full, t); }

void any(mc::Ctx& ctx, size_t r, size_t c, bool full)
{
    switch (ctx.choose(full ? 6 : 4, "type")) {
    case 0: dispatch<double, CM>(ctx, r, c, full, "double,CM"); break;
    case 1: dispatch<double, RM>(ctx, r, c, full, "double,RM"); break;
    case 2: dispatch<float, CM>(ctx, r, c, full, "float,CM"); break;
    case 3: dispatch<float, RM>(ctx, r, c, full, "float,RM"); break;
    case 4: dispatch<int, CM>(ctx, r, c, full, "int,CM"); break;
    case 5: dispatch<int, RM>(ctx, r, c, full, "int,RM"); break;
    }
    ctx.outcome("all routes agree");
}

} // namespace

SCENARIO_SHARDED(small_shapes)
{
    int n = ctx.tier(4, 6);
    size_t r = ctx.choose(n + 1, "rows"), c = ctx.choose(n + 1, "columns");
    ctx.shard();
    any(ctx, r, c, true);
    ctx.sample(std::to_string(r) + "x" + std::to_string(c));
}

SCENARIO_SHARDED(wide_shapes)
{
    static const std::vector<size_t> q{1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33}, t{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 55, 56, 57};
    auto const& v = ctx.thorough() ? t : q;
    size_t r = ctx.pick(v, "rows"), c = ctx.pick(v, "columns");
    ctx.shard();
    any(ctx, r, c, false);
    ctx.state(mc::Hash()("wide")(r)(c)(ctx.prefix));
}

// nested initializer lists are read row by row, whatever the orientation
SCENARIO(initializer_list)
{
    auto test = [&](auto const& m, size_t r, size_t c, std::string t) {
        CHECK(m.getNbRows() == r && m.getNbColumns() == c, "init-dim:" + t, "wrong dimension");
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
            CHECK(m(i, j) == typename std::decay<decltype(m)>::type::value_type(i * 10 + j + 1), "init:" + t, "initializer list element (" + std::to_string(i) + "," + std::to_string(j) + ")");
        ctx.state(mc::Hash()(t)(r)(c));
    };
    auto go = [&](auto p, std::string t) {
        typedef decltype(p) M;
        typedef typename M::value_type V;
        switch (ctx.choose(8, "shape")) {
        case 0: test(M{{V(1)}}, 1, 1, t); break;
        case 1: test(M{{V(1), V(2)}}, 1, 2, t); break;
        case 2: test(M{{V(1)}, {V(11)}}, 2, 1, t); break;
        case 3: test(M{{V(1), V(2)}, {V(11), V(12)}}, 2, 2, t); break;
        case 4: test(M{{V(1), V(2), V(3)}, {V(11), V(12), V(13)}}, 2, 3, t); break;
        case 5: test(M{{V(1), V(2)}, {V(11), V(12)}, {V(21), V(22)}}, 3, 2, t); break;
        case 6: test(M{{V(1), V(2), V(3)}, {V(11), V(12), V(13)}, {V(21), V(22), V(23)}, {V(31), V(32), V(33)}}, 4, 3, t); break;
        case 7: test(M{{V(1), V(2), V(3), V(4), V(5)}}, 1, 5, t); break;
        }
    };
    switch (ctx.choose(4, "type")) {
    case 0: go(D<double>(), "double,CM"); break;
    case 1: go(D<double, RM>(), "double,RM"); break;
    case 2: go(D<float>(), "float,CM"); break;
    case 3: go(D<float, RM>(), "float,RM"); break;
    }
}
