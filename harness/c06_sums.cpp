// C06: sums and differences of every pair of static matrix kinds are elementwise exact.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "values.h"
using namespace bb;

namespace {

// precision of an operand kind
template <class M> struct Prec { typedef double type; static const bool exact_only = true; };           // multiple: three operands are added up
template <class K, class T, class P> struct Prec<Matrix<K, T, P>> { typedef T type; static const bool exact_only = false; };
template <class P> struct Prec<Matrix<Zero, NullType, P>> { typedef float type; static const bool exact_only = false; };
template <class M> struct IsZero { static const bool value = false; };
template <class P> struct IsZero<Matrix<Zero, NullType, P>> { static const bool value = true; };
template <class M> struct IsDense { static const bool value = false; };
template <class T, class P> struct IsDense<Matrix<Dense, T, P>> { static const bool value = true; };

template <class M> struct Make;
template <class T, class P> struct Make<Matrix<Dense, T, P>> { static std::shared_ptr<Matrix<Dense, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Dense, T, P>>(dense<T, P>(a)); } };
template <class T, class P> struct Make<Matrix<Sparse, T, P>> { static std::shared_ptr<Matrix<Sparse, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Sparse, T, P>>(sparse<T, P>(a)); } };
template <> struct Make<Z> { static std::shared_ptr<Z> make(Ref const& a) { return std::make_shared<Z>(a.r, a.c); } };
template <> struct Make<MSS> { static std::shared_ptr<MSS> make(Ref const& a) { return cast<MSS>(dynamic(4, a)); } };
template <> struct Make<MSD> { static std::shared_ptr<MSD> make(Ref const& a) { return cast<MSD>(dynamic(5, a)); } };

template <class M> Ref value(Ref a)   // what the operand of kind M holds when made from a
{
    for (double& x : a.v) x = IsZero<M>::value ? 0.0 : double(static_cast<typename Prec<M>::type>(x));
    return a;
}
template <class M> std::string form(M const&) { return ""; }
template <class T, class P> std::string form(S<T, P> const& m) { return canonical(m); }

template <class R> void result(mc::Ctx& ctx, R const& c, Ref const& e, std::string const& tag)
{
    CHECK(c.getNbRows() == e.r && c.getNbColumns() == e.c && c.getSize() == e.r * e.c, "dim:" + tag, "result is " + std::to_string(c.getNbRows()) + "x" + std::to_string(c.getNbColumns()) + " instead of " + std::to_string(e.r) + "x" + std::to_string(e.c));
    CHECK(form(c).empty(), "canonical:" + tag, form(c));
    Ref x = bb::ref(c);
    CHECK(x == e, "value:" + tag, str(x) + " instead of " + str(e));
}

template <class A, class B> void pair(mc::Ctx& ctx, Ref const& a0, Ref const& b0)
{
    typedef typename Prec<A>::type TA; typedef typename Prec<B>::type TB; typedef decltype(TA() + TB()) TR;
    std::string tag = kind<A>() + "," + kind<B>();
    Ref a = value<A>(a0), b = value<B>(b0);
    auto expect = [&](double s, bool inplace) { Ref e(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) { TR x = TR(a.v[i]) + TR(s) * TR(b.v[i]); e.v[i] = inplace ? double(TA(x)) : double(x); } return e; };
    auto pa = Make<A>::make(a0); auto pb = Make<B>::make(b0);
    auto unchanged = [&](std::string const& op) {
        CHECK(bb::ref(*pa) == a && form(*pa).empty(), "left:" + op + tag, "the left operand changed: " + str(bb::ref(*pa)) + " instead of " + str(a));
        CHECK(bb::ref(*pb) == b && form(*pb).empty(), "right:" + op + tag, "the right operand changed: " + str(bb::ref(*pb)) + " instead of " + str(b));
    };
    ctx.note("+:" + tag);
    { auto c = *pa + *pb; result(ctx, c, expect(1, false), "+:" + tag); unchanged("+:"); auto d = *pa + *pb; result(ctx, d, expect(1, false), "+ repeated:" + tag); }
    ctx.note("-:" + tag);
    { auto c = *pa - *pb; result(ctx, c, expect(-1, false), "-:" + tag); unchanged("-:"); }
    for (int s = 1; s >= -1; s -= 2) {
        std::string op = s > 0 ? "+=:" : "-=:";
        ctx.note(op + tag);
        const bool must = IsDense<A>::value || (IsZero<B>::value);
        auto left = Make<A>::make(a0);
        bool done = true;
        try { if (s > 0) *left += *pb; else *left -= *pb; }
        catch (mc::Failure const&) { throw; }
        catch (std::exception const&) { done = false; }
        CHECK(done || !must, "rejected:" + op + tag, "a supported in-place operation throws");
        result(ctx, *left, done ? expect(s, true) : a, op + (done ? "" : "rejected:") + tag);
        CHECK(bb::ref(*pb) == b && form(*pb).empty(), "right:" + op + tag, "the right operand changed");
        ctx.outcome(op + tag + (done ? " computed" : " rejected"));
    }
    ctx.state(mc::Hash()(tag)(hash(a0))(hash(b0)));
}

template <class A> void aliased(mc::Ctx& ctx, Ref const& a0)
{
    std::string tag = kind<A>();
    Ref a = value<A>(a0);
    ctx.note("aliased:" + tag);
    auto p = Make<A>::make(a0);
    { auto c = *p + *p; result(ctx, c, add(a, a), "A+A:" + tag); }
    { auto c = *p - *p; result(ctx, c, add(a, a, -1.0), "A-A:" + tag); }
    CHECK(bb::ref(*p) == a, "A+A operand:" + tag, "operand changed");
    if (IsDense<A>::value) {
        *p += *p; result(ctx, *p, add(a, a), "A+=A:" + tag);
        *p -= *p; result(ctx, *p, Ref(a.r, a.c), "A-=A:" + tag);
    }
}

double other(size_t i, size_t j) { return (i + j) % 2 ? -code(i, j) : code(i, j) + 1.0; }
double third(size_t i, size_t j) { return code(i, j) / 3.0; }
double seventh(size_t i, size_t j) { return other(i, j) / 7.0; }

template <class A, class B> void both(mc::Ctx& ctx, std::function<Ref(double (*)(size_t, size_t))> mka, std::function<Ref(double (*)(size_t, size_t))> mkb)
{
    pair<A, B>(ctx, mka(code), mkb(other));
    if (!Prec<A>::exact_only && !Prec<B>::exact_only) pair<A, B>(ctx, mka(third), mkb(seventh));
}

#if MC_PART == 0
typedef D<double> LEFT;
#elif MC_PART == 1
typedef D<float> LEFT;
#elif MC_PART == 2
typedef S<double> LEFT;
#elif MC_PART == 3
typedef S<float> LEFT;
#elif MC_PART == 4
typedef Z LEFT;
#elif MC_PART == 5
typedef MSS LEFT;
#elif MC_PART == 6
typedef MSD LEFT;
#else
typedef D<double, RM> LEFT;
#endif

typedef std::function<Ref(double (*)(size_t, size_t))> Mk;
template <class A> void rights(mc::Ctx& ctx, Mk const& a, Mk const& b)
{
    both<A, D<double>>(ctx, a, b); both<A, D<float>>(ctx, a, b); both<A, S<double>>(ctx, a, b); both<A, S<float>>(ctx, a, b);
    both<A, Z>(ctx, a, b); both<A, MSS>(ctx, a, b); both<A, MSD>(ctx, a, b);
    aliased<A>(ctx, a(code));
}
template <class A> void rights_row(mc::Ctx& ctx, Mk const& a, Mk const& b)
{
    both<A, D<double, RM>>(ctx, a, b); both<A, D<float, RM>>(ctx, a, b); both<A, S<double, RM>>(ctx, a, b); both<A, S<float, RM>>(ctx, a, b);
    aliased<A>(ctx, a(code));
}
void all(mc::Ctx& ctx, Mk const& a, Mk const& b)
{
#if MC_PART < 7
    rights<LEFT>(ctx, a, b);
#else
    rights_row<D<double, RM>>(ctx, a, b); rights_row<D<float, RM>>(ctx, a, b); rights_row<S<double, RM>>(ctx, a, b); rights_row<S<float, RM>>(ctx, a, b);
#endif
}

void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2} };
    static const std::vector<std::pair<size_t, size_t>> sht{ {0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    size_t r = s.first, c = s.second;
    unsigned long x = ctx.choose(1 << (r * c), "pattern of A"), y = ctx.choose(1 << (r * c), "pattern of B");
    ctx.shard();
    all(ctx, [&](double (*f)(size_t, size_t)) { return pattern(r, c, x, f); }, [&](double (*f)(size_t, size_t)) { return pattern(r, c, y, f); });
}
mc::Register r1("patterns:" + kind<LEFT>(), patterns, true);

void structures(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {3, 4}, {4, 3}, {5, 2}, {2, 5}, {7, 1}, {1, 7}, {9, 16}, {17, 5} };
    auto s = ctx.pick(sh);
    size_t r = s.first, c = s.second;
    int x = ctx.choose(nb_structured, "pattern of A"), y = ctx.choose(nb_structured, "pattern of B");
    ctx.shard();
    all(ctx, [&](double (*f)(size_t, size_t)) { return structured(r, c, x, f); }, [&](double (*f)(size_t, size_t)) { return structured(r, c, y, f); });
    if (ctx.thorough()) all(ctx, [&](double (*f)(size_t, size_t)) { return structured(3 * r, 2 * c, x, f); }, [&](double (*f)(size_t, size_t)) { return structured(3 * r, 2 * c, y, f); });
}
mc::Register r2("structured:" + kind<LEFT>(), structures, true);

void wide(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(4225, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    auto p = ctx.pick(big_patterns(ctx.thorough()));
    all(ctx, [&](double (*f)(size_t, size_t)) { return structured(r, c, p.first, f); }, [&](double (*f)(size_t, size_t)) { return structured(r, c, p.second, f); });
}
mc::Register r3("wide:" + kind<LEFT>(), wide, true);

// single elements whose sum is not exact, or at the limits of the types
#if MC_PART < 4
template <class A, class B> void limits(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    typedef typename Prec<A>::type TA; typedef typename Prec<B>::type TB;
    for (double x : a.v) if (TA(x) == 0 || !std::isfinite(TA(x))) return;
    for (double x : b.v) if (TB(x) == 0 || !std::isfinite(TB(x))) return;
    for (size_t i = 0; i < a.v.size(); ++i) for (int s = -1; s < 2; s += 2) if (!std::isfinite(TA(TA(a.v[i]) + s * TB(b.v[i])))) return;
    pair<A, B>(ctx, a, b);
}
void values(mc::Ctx& ctx)
{
    auto const& f = factors();
    Ref a(1, 2), b(1, 2);
    a.v[0] = ctx.pick(f); b.v[0] = ctx.pick(f);
    ctx.shard();
    a.v[1] = ctx.pick(f); b.v[1] = 1.0;
    limits<LEFT, D<double>>(ctx, a, b); limits<LEFT, D<float>>(ctx, a, b); limits<LEFT, S<double>>(ctx, a, b); limits<LEFT, S<float>>(ctx, a, b);
}
mc::Register r4("values:" + kind<LEFT>(), values, true);
#endif

} // namespace
