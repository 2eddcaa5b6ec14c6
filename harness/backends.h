// Products through a back end against the native one and a reference.
#pragma once
#include "values.h"
#include <BlasBooster/Core/Multiplication_TheBestPolicy.h>
using namespace bb;

namespace {

template <class I> struct Iface;
template <> struct Iface<TheBestPolicy> { static std::string name() { return "TheBestPolicy"; } };

template <class M> struct IsZero { static const bool value = false; };
template <class P> struct IsZero<Matrix<Zero, NullType, P>> { static const bool value = true; };

template <class M> struct Make;
template <class T, class P> struct Make<Matrix<Dense, T, P>> { static std::shared_ptr<Matrix<Dense, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Dense, T, P>>(dense<T, P>(a)); } };
template <class T, class P> struct Make<Matrix<Sparse, T, P>> { static std::shared_ptr<Matrix<Sparse, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Sparse, T, P>>(sparse<T, P>(a)); } };
template <> struct Make<Z> { static std::shared_ptr<Z> make(Ref const& a) { return std::make_shared<Z>(a.r, a.c); } };
template <> struct Make<MSS> { static std::shared_ptr<MSS> make(Ref const& a) { return cast<MSS>(dynamic(4, a)); } };
template <> struct Make<MSD> { static std::shared_ptr<MSD> make(Ref const& a) { return cast<MSD>(dynamic(5, a)); } };
template <class M> std::string form(M const&) { return ""; }
template <class T, class P> std::string form(S<T, P> const& m) { return canonical(m); }

template <class R> void verify(mc::Ctx& ctx, R const& c, Ref const& e, std::string const& tag)
{
    CHECK(c.getNbRows() == e.r && c.getNbColumns() == e.c && c.getSize() == e.r * e.c, "dim:" + tag, "product is " + std::to_string(c.getNbRows()) + "x" + std::to_string(c.getNbColumns()));
    CHECK(form(c).empty(), "canonical:" + tag, form(c));
    Ref x = bb::ref(c);
    CHECK(x == e, "value:" + tag, str(x) + " instead of " + str(e));
}

template <class I, class A, class B> void backend(mc::Ctx& ctx, Ref a, Ref b)
{
    std::string tag = Iface<I>::name() + ":" + kind<A>() + "*" + kind<B>();
    ctx.note(tag);
    if (IsZero<A>::value) a = Ref(a.r, a.c);
    if (IsZero<B>::value) b = Ref(b.r, b.c);
    auto pa = Make<A>::make(a); auto pb = Make<B>::make(b);
    Ref e = mul(a, b);
    auto n = (*pa * *pb).template execute<Native>();
    verify(ctx, n, e, "Native for " + tag);
    auto c = (*pa * *pb).template execute<I>();
    static_assert(std::is_same<decltype(c), decltype(n)>::value, "same result type for every interface");
    verify(ctx, c, e, tag);
    // a result that already holds something larger, whose memory is reused
    auto o1 = Make<A>::make(make(a.r + 1, 2, code)); auto o2 = Make<B>::make(make(2, b.c + 1, code));
    auto d = (*o1 * *o2).template execute<Native>();
    d = (*pa * *pb).template execute<I>();
    verify(ctx, d, e, tag + ":reused result");
    CHECK(bb::ref(*pa) == a && bb::ref(*pb) == b && form(*pa).empty() && form(*pb).empty(), "operand:" + tag, "an operand changed");
    ctx.state(mc::Hash()(tag)(hash(a))(hash(b)));
    ctx.outcome(tag);
}

// the functor itself, writing into a result that is not empty
template <class I, class TA, class TB, class TC> void functor(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    std::string tag = "functor " + Iface<I>::name() + ":" + kind<D<TA>>() + "*" + kind<D<TB>>();
    ctx.note(tag);
    D<TA> A = dense<TA>(a); D<TB> B = dense<TB>(b);
    Ref e = mul(a, b);
    for (Ref const& old : { Ref(a.r, b.c, -7.0), Ref(a.r + 1, b.c + 2, 5.0), Ref(1, 1, 3.0) }) {
        D<TC> C = dense<TC>(old);
        MultiplicationFunctor<Dense, TA, CM, Dense, TB, CM, Dense, TC, CM, I>()(A, B, C);
        verify(ctx, C, e, tag);
    }
    CHECK(bb::ref(A) == a && bb::ref(B) == b, "operand:" + tag, "an operand changed");
}

template <class A> void best(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    backend<TheBestPolicy, A, D<double>>(ctx, a, b); backend<TheBestPolicy, A, D<float>>(ctx, a, b);
    backend<TheBestPolicy, A, S<double>>(ctx, a, b); backend<TheBestPolicy, A, S<float>>(ctx, a, b);
    backend<TheBestPolicy, A, Z>(ctx, a, b); backend<TheBestPolicy, A, MSS>(ctx, a, b); backend<TheBestPolicy, A, MSD>(ctx, a, b);
}
template <class I, class T> void row_major(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    backend<I, D<T, RM>, D<T, RM>>(ctx, a, b); backend<I, D<T, RM>, D<T>>(ctx, a, b); backend<I, D<T>, D<T, RM>>(ctx, a, b);
}

template <class I, class A, class B> void values(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    value_product<A, B>(ctx, Iface<I>::name() + ":" + kind<A>() + "*" + kind<B>(), a, b, [](Ref const& x) { return Make<A>::make(x); }, [](Ref const& x) { return Make<B>::make(x); },
        [](A const& x, B const& y) { return (x * y).template execute<I>(); });
}
template <class I, class A> void values_all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    values<I, A, D<double>>(ctx, a, b); values<I, A, D<float>>(ctx, a, b); values<I, A, S<double>>(ctx, a, b); values<I, A, S<float>>(ctx, a, b);
}

double other(size_t i, size_t j) { return (i + j) % 2 ? -code(i, j) : code(i, j) + 1.0; }
}
