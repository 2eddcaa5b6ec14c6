// C08: native multiplication of every operand kind pair is the matrix product.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "values.h"
using namespace bb;

namespace {

template <class M> struct Info { static const bool zero = false, multi = true; };
template <class K, class T, class P> struct Info<Matrix<K, T, P>> { static const bool zero = false, multi = false; };
template <class P> struct Info<Matrix<Zero, NullType, P>> { static const bool zero = true, multi = false; };

template <class M> struct Make;
template <class T, class P> struct Make<Matrix<Dense, T, P>> { static std::shared_ptr<Matrix<Dense, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Dense, T, P>>(dense<T, P>(a)); } };
template <class T, class P> struct Make<Matrix<Sparse, T, P>> { static std::shared_ptr<Matrix<Sparse, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Sparse, T, P>>(sparse<T, P>(a)); } };
template <> struct Make<Z> { static std::shared_ptr<Z> make(Ref const& a) { return std::make_shared<Z>(a.r, a.c); } };
template <> struct Make<MSS> { static std::shared_ptr<MSS> make(Ref const& a) { return cast<MSS>(dynamic(4, a)); } };
template <> struct Make<MSD> { static std::shared_ptr<MSD> make(Ref const& a) { return cast<MSD>(dynamic(5, a)); } };

template <class M> std::string form(M const&) { return ""; }
template <class T, class P> std::string form(S<T, P> const& m) { return canonical(m); }

template <class R> void verify(mc::Ctx& ctx, R const& c, Ref const& e, std::string const& tag)
{
    CHECK(c.getNbRows() == e.r && c.getNbColumns() == e.c && c.getSize() == e.r * e.c, "dim:" + tag, "product is " + std::to_string(c.getNbRows()) + "x" + std::to_string(c.getNbColumns()) + " instead of " + std::to_string(e.r) + "x" + std::to_string(e.c));
    CHECK(form(c).empty(), "canonical:" + tag, form(c));
    Ref x = bb::ref(c);
    CHECK(x == e, "value:" + tag, str(x) + " instead of " + str(e));
}

template <class A, class B> void product(mc::Ctx& ctx, Ref a, Ref b)
{
    std::string tag = kind<A>() + "*" + kind<B>();
    ctx.note(tag);
    if (Info<A>::zero) a = Ref(a.r, a.c);
    if (Info<B>::zero) b = Ref(b.r, b.c);
    auto pa = Make<A>::make(a); auto pb = Make<B>::make(b);
    Ref e = mul(a, b);
    auto c = (*pa * *pb).template execute<Native>();
    verify(ctx, c, e, tag);
    // into a result that holds something else
    auto other = Make<A>::make(make(2, 3, code)); auto other2 = Make<B>::make(make(3, 2, code));
    auto d = (*other * *other2).template execute<Native>();
    d = (*pa * *pb).template execute<Native>();
    verify(ctx, d, e, tag + ":reused result");
    CHECK(bb::ref(*pa) == a && bb::ref(*pb) == b && form(*pa).empty() && form(*pb).empty(), "operand:" + tag, "an operand changed");
    ctx.state(mc::Hash()(tag)(hash(a))(hash(b)));
    ctx.outcome(tag);
}

// the constructor from an expression multiplies natively
template <class T> void construct(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    ctx.note("construction");
    D<T> A = dense<T>(a), B = dense<T>(b); S<T> SA = sparse<T>(a), SB = sparse<T>(b);
    Ref e = mul(a, b);
    { D<T> c(A * B); verify(ctx, c, e, "Dense(A*B)"); }
    { D<T> c(SA * B); verify(ctx, c, e, "Dense(SA*B)"); }
    { D<T> c(A * SB); verify(ctx, c, e, "Dense(A*SB)"); }
    { S<T> c(SA * SB); verify(ctx, c, e, "Sparse(SA*SB)"); }
    { D<T> c(1, 1); c = A * B; verify(ctx, c, e, "Dense=A*B"); }
}

double other(size_t i, size_t j) { return (i + j) % 2 ? -code(i, j) : code(i, j) + 1.0; }

#if MC_PART == 0
typedef D<double> LEFT;
#elif MC_PART == 1
typedef D<float> LEFT;
#elif MC_PART == 2
typedef S<double> LEFT;
#elif MC_PART == 3
typedef S<float> LEFT;
#elif MC_PART == 4
typedef Z LEFT;
#elif MC_PART == 5
typedef MSS LEFT;
#elif MC_PART == 6
typedef MSD LEFT;
#else
typedef D<double, RM> LEFT;
#endif

template <class A> void with_all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    product<A, D<double>>(ctx, a, b); product<A, D<float>>(ctx, a, b); product<A, S<double>>(ctx, a, b); product<A, S<float>>(ctx, a, b);
    product<A, Z>(ctx, a, b); product<A, MSS>(ctx, a, b); product<A, MSD>(ctx, a, b);
}
template <class A> void with_row(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    product<A, D<double, RM>>(ctx, a, b); product<A, S<double, RM>>(ctx, a, b); product<A, D<double>>(ctx, a, b); product<A, S<float>>(ctx, a, b);
}
void all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
#if MC_PART < 7
    with_all<LEFT>(ctx, a, b);
    if (MC_PART < 2) construct<std::conditional<MC_PART == 0, double, float>::type>(ctx, a, b);
#else
    with_row<D<double, RM>>(ctx, a, b); with_row<S<double, RM>>(ctx, a, b); with_row<D<float>>(ctx, a, b); with_row<S<double>>(ctx, a, b); product<D<float, RM>, S<float, RM>>(ctx, a, b); product<S<float, RM>, D<float, RM>>(ctx, a, b);
#endif
}

// every shape, both operands full; then with every structured pattern
void shapes(mc::Ctx& ctx)
{
    int n = ctx.tier(3, 4);
    size_t m = ctx.range(0, n, "rows"), k = ctx.range(0, n, "inner"), c = ctx.range(0, n, "columns");
    ctx.shard();
    int x = ctx.choose(nb_structured, "pattern of A"), y = ctx.choose(nb_structured, "pattern of B");
    all(ctx, structured(m, k, x), structured(k, c, y, other));
}
mc::Register r1("shapes:" + kind<LEFT>(), shapes, true);

void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> sh{ {1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {3, 2, 1}, {1, 4, 1}, {4, 1, 1}, {1, 1, 4} };
    static const std::vector<std::array<size_t, 3>> sht{ {1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {3, 2, 1}, {1, 4, 1}, {4, 1, 1}, {1, 1, 4}, {2, 3, 2}, {3, 2, 2}, {2, 1, 5}, {5, 1, 2} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    unsigned long x = ctx.choose(1 << (s[0] * s[1]), "pattern of A");
    ctx.shard();
    unsigned long y = ctx.choose(1 << (s[1] * s[2]), "pattern of B");
    all(ctx, pattern(s[0], s[1], x), pattern(s[1], s[2], y, other));
}
mc::Register r2("patterns:" + kind<LEFT>(), patterns, true);

// every 2x2 operand with elements 0, 1, -1: sums cancel
void cancel(mc::Ctx& ctx)
{
    int x = ctx.choose(81, "A"); ctx.shard(); int y = ctx.choose(81, "B");
    Ref a(2, 2), b(2, 2);
    for (int i = 0; i < 4; ++i) { a.v[i] = x % 3 - 1; x /= 3; b.v[i] = y % 3 - 1; y /= 3; }
    all(ctx, a, b);
}
mc::Register r3("cancellation:" + kind<LEFT>(), cancel, true);

void large(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> sh{ {7, 5, 9}, {16, 4, 1}, {1, 17, 8}, {8, 16, 17}, {5, 33, 3} };
    auto s = ctx.pick(sh);
    ctx.shard();
    int x = ctx.choose(nb_structured, "pattern of A"), y = ctx.choose(nb_structured, "pattern of B");
    auto small = [](size_t i, size_t j) { return double(int((i * 7 + j * 3) % 9) - 4); };
    all(ctx, structured(s[0], s[1], x, small), structured(s[1], s[2], y, small));
}
mc::Register r4("large:" + kind<LEFT>(), large, true);
void wide(mc::Ctx& ctx)
{
    auto s = ctx.pick(big_triples(ctx.thorough()));
    ctx.shard();
    auto p = ctx.pick(big_patterns(ctx.thorough()));
    all(ctx, structured(s[0], s[1], p.first, wcode), structured(s[1], s[2], p.second, wother));
}
mc::Register r5("wide:" + kind<LEFT>(), wide, true);

#if MC_PART < 4 || MC_PART == 7
template <class A, class B> void values(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    value_product<A, B>(ctx, kind<A>() + "*" + kind<B>(), a, b, [](Ref const& x) { return Make<A>::make(x); }, [](Ref const& x) { return Make<B>::make(x); },
        [](A const& x, B const& y) { return (x * y).template execute<Native>(); });
}
void exact(mc::Ctx& ctx)
{
    auto o = value_operands(ctx);
    values<LEFT, D<double>>(ctx, o.first, o.second); values<LEFT, S<double>>(ctx, o.first, o.second);
#if MC_PART < 4
    values<LEFT, D<float>>(ctx, o.first, o.second); values<LEFT, S<float>>(ctx, o.first, o.second);
#else
    values<LEFT, D<double, RM>>(ctx, o.first, o.second); values<S<double, RM>, D<double>>(ctx, o.first, o.second); values<S<double, RM>, S<float>>(ctx, o.first, o.second); values<D<float, RM>, S<float, RM>>(ctx, o.first, o.second);
#endif
    ctx.state(mc::Hash()("values")(hash(o.first))(hash(o.second)));
}
mc::Register r6("values:" + kind<LEFT>(), exact, true);
#endif

} // namespace
