// C37: operands whose dimensions do not fit are refused, and nothing is touched.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "blocked.h"
#include <BlasBooster/Core/Multiplication_TheBestPolicy.h>
using namespace bb;

namespace {

template <class M> struct Make;
template <class T, class P> struct Make<Matrix<Dense, T, P>> { static std::shared_ptr<Matrix<Dense, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Dense, T, P>>(dense<T, P>(a)); } };
template <class T, class P> struct Make<Matrix<Sparse, T, P>> { static std::shared_ptr<Matrix<Sparse, T, P>> make(Ref const& a) { return std::make_shared<Matrix<Sparse, T, P>>(sparse<T, P>(a)); } };
template <> struct Make<Z> { static std::shared_ptr<Z> make(Ref const& a) { return std::make_shared<Z>(a.r, a.c); } };
template <> struct Make<MSS> { static std::shared_ptr<MSS> make(Ref const& a) { return cast<MSS>(dynamic(4, a)); } };
template <> struct Make<MSD> { static std::shared_ptr<MSD> make(Ref const& a) { return cast<MSD>(dynamic(5, a)); } };
template <class M> struct IsZero { static const bool value = false; };
template <class P> struct IsZero<Matrix<Zero, NullType, P>> { static const bool value = true; };
template <class M> struct IsDense { static const bool value = false; };
template <class T, class P> struct IsDense<Matrix<Dense, T, P>> { static const bool value = true; };
template <class M> std::string form(M const&) { return ""; }
template <class T, class P> std::string form(S<T, P> const& m) { return canonical(m); }

double other(size_t i, size_t j) { return (i + j) % 2 ? -code(i, j) : code(i, j) + 1.0; }

/// what an operation did: refused with an exception, or a result
template <class Op> bool refused(Op const& op)
{
    try { op(); return false; }
    catch (mc::Failure const&) { throw; }
    catch (std::exception const&) { return true; }
}

template <class M> Ref held(Ref const& a) { return IsZero<M>::value ? Ref(a.r, a.c) : a; }

template <class R> void result(mc::Ctx& ctx, R const& c, Ref const& e, std::string const& tag)
{
    CHECK(c.getNbRows() == e.r && c.getNbColumns() == e.c && form(c).empty() && bb::ref(c) == e, "value:" + tag, str(bb::ref(c)) + " " + form(c) + " instead of " + str(e));
}

template <class A, class B> void sums(mc::Ctx& ctx, Ref const& a0, Ref const& b0)
{
    std::string tag = kind<A>() + "," + kind<B>();
    Ref a = held<A>(a0), b = held<B>(b0);
    bool fit = a.r == b.r && a.c == b.c;
    std::string dims = std::to_string(a.r) + "x" + std::to_string(a.c) + " and " + std::to_string(b.r) + "x" + std::to_string(b.c);
    auto pa = Make<A>::make(a0); auto pb = Make<B>::make(b0);
    auto untouched = [&](std::string const& op, Ref const& left) {
        CHECK(form(*pa).empty() && bb::ref(*pa) == left, "left:" + op + tag, "the left operand is " + str(bb::ref(*pa)) + " instead of " + str(left));
        CHECK(form(*pb).empty() && bb::ref(*pb) == b, "right:" + op + tag, "the right operand is " + str(bb::ref(*pb)) + " instead of " + str(b));
    };
    for (int s = 1; s >= -1; s -= 2) {
        std::string op = s > 0 ? "+:" : "-:";
        ctx.note(op + tag);
        bool no = refused([&] {
            if (s > 0) { auto x = *pa + *pb; if (fit) result(ctx, x, add(a, b), op + tag); }
            else { auto x = *pa - *pb; if (fit) result(ctx, x, add(a, b, -1.0), op + tag); }
        });
        CHECK(no == !fit, (fit ? "rejected:" : "accepted:") + op + tag, dims);
        untouched(op, a);
        op = s > 0 ? "+=:" : "-=:";
        ctx.note(op + tag);
        no = refused([&] { if (s > 0) *pa += *pb; else *pa -= *pb; });
        if (!fit) { CHECK(no, "accepted:" + op + tag, dims); untouched(op, a); }
        else {
            CHECK(!no || !(IsDense<A>::value || IsZero<B>::value), "rejected:" + op + tag, dims);
            untouched(op, no ? a : add(a, b, s));
            if (!no) pa = Make<A>::make(a0);
        }
    }
    ctx.outcome(tag + (fit ? " fit" : " do not fit"));
}

template <class A, class B, class I> void product(mc::Ctx& ctx, Ref const& a0, Ref const& b0, std::string const& name)
{
    std::string tag = name + ":" + kind<A>() + "*" + kind<B>();
    ctx.note(tag);
    Ref a = held<A>(a0), b = held<B>(b0);
    bool fit = a.c == b.r;
    auto pa = Make<A>::make(a0); auto pb = Make<B>::make(b0);
    bool no = refused([&] { auto x = (*pa * *pb).template execute<I>(); if (fit) result(ctx, x, mul(a, b), tag); });
    CHECK(no == !fit, (fit ? "rejected:" : "accepted:") + tag, std::to_string(a.r) + "x" + std::to_string(a.c) + " times " + std::to_string(b.r) + "x" + std::to_string(b.c));
    CHECK(form(*pa).empty() && form(*pb).empty() && bb::ref(*pa) == a && bb::ref(*pb) == b, "operand:" + tag, "an operand changed");
    ctx.outcome(tag + (fit ? " fit" : " do not fit"));
}

template <class A, class B> void both(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    sums<A, B>(ctx, a, b);
    product<A, B, Native>(ctx, a, b, "Native");
    product<A, B, TheBestPolicy>(ctx, a, b, "TheBestPolicy");
}
template <class A> void rights(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    both<A, D<double>>(ctx, a, b); both<A, D<float>>(ctx, a, b); both<A, S<double>>(ctx, a, b); both<A, S<float>>(ctx, a, b);
    both<A, Z>(ctx, a, b); both<A, MSS>(ctx, a, b); both<A, MSD>(ctx, a, b);
}
template <class A> void rights_row(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    sums<A, D<double, RM>>(ctx, a, b); sums<A, D<float, RM>>(ctx, a, b); sums<A, S<double, RM>>(ctx, a, b); sums<A, S<float, RM>>(ctx, a, b);
}

template <class F> void shapes(mc::Ctx& ctx, F const& f)
{
    int n = ctx.tier(2, 4);
    size_t r = ctx.range(0, n, "rows of A"), c = ctx.range(0, n, "columns of A");
    ctx.shard();
    size_t s = ctx.range(0, n, "rows of B"), d = ctx.range(0, n, "columns of B");
    int p = ctx.choose(3, "zeros");
    Ref a = make(r, c, code), b = make(s, d, other);
    if (p == 1) for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) if ((i + j) % 2) a(i, j) = 0.0;
    if (p == 2) { for (double& x : b.v) x = 0.0; }
    ctx.state(mc::Hash()(hash(a))(hash(b)));
    f(a, b);
}

#if MC_PART == 0
typedef D<double> LEFT;
#elif MC_PART == 1
typedef D<float> LEFT;
#elif MC_PART == 2
typedef S<double> LEFT;
#elif MC_PART == 3
typedef S<float> LEFT;
#elif MC_PART == 4
typedef Z LEFT;
#elif MC_PART == 5
typedef MSS LEFT;
#elif MC_PART == 6
typedef MSD LEFT;
#endif

#if MC_PART < 7
void pairs(mc::Ctx& ctx) { shapes(ctx, [&](Ref const& a, Ref const& b) { rights<LEFT>(ctx, a, b); }); }
mc::Register r0("every pair of dimensions: " + kind<LEFT>(), pairs, true);

#elif MC_PART == 7
void rows(mc::Ctx& ctx)
{
    shapes(ctx, [&](Ref const& a, Ref const& b) {
        rights_row<D<double, RM>>(ctx, a, b); rights_row<D<float, RM>>(ctx, a, b); rights_row<S<double, RM>>(ctx, a, b); rights_row<S<float, RM>>(ctx, a, b);
        product<D<double, RM>, D<double, RM>, Native>(ctx, a, b, "Native"); product<D<double, RM>, D<double>, Native>(ctx, a, b, "Native"); product<D<double>, D<double, RM>, Native>(ctx, a, b, "Native");
        product<D<float, RM>, D<float, RM>, TheBestPolicy>(ctx, a, b, "TheBestPolicy"); product<D<float, RM>, D<float>, TheBestPolicy>(ctx, a, b, "TheBestPolicy"); product<D<float>, D<float, RM>, TheBestPolicy>(ctx, a, b, "TheBestPolicy");
    });
}
mc::Register r1("every pair of dimensions: row-major", rows, true);

#elif MC_PART == 8
// matrices whose type is known at run time
void run_time(mc::Ctx& ctx)
{
    int n = ctx.tier(2, 3);
    size_t r = ctx.range(0, n, "rows of A"), c = ctx.range(0, n, "columns of A");
    ctx.shard();
    size_t s = ctx.range(0, n, "rows of B"), d = ctx.range(0, n, "columns of B");
    Ref a = make(r, c, code), b = make(s, d, other);
    for (int x = 0; x < 7; ++x) for (int y = 0; y < 7; ++y) {
        Ref ea = x ? a : Ref(r, c), eb = y ? b : Ref(s, d);
        DynamicMatrix A = dynamic(x, a), B = dynamic(y, b);
        MatrixBase *pa = A.get(), *pb = B.get();
        for (int op = 0; op < 6; ++op) {
            static const char* const names[] = { "+", "-", "*", "best*", "+=", "-=" };
            std::string tag = std::string(dyn_names[x]) + " " + names[op] + " " + dyn_names[y];
            ctx.note(tag);
            bool fit = op == 2 || op == 3 ? c == s : r == s && c == d;
            Ref e; if (fit) e = op == 2 || op == 3 ? mul(ea, eb) : add(ea, eb, op == 0 || op == 4 ? 1.0 : -1.0);
            if (op >= 4) { A = dynamic(x, a); pa = A.get(); }
            bool no = refused([&] {
                DynamicMatrix C;
                switch (op) { case 0: C = A + B; break; case 1: C = A - B; break; case 2: C = (A * B).template execute<Native>(); break; case 3: C = (A * B).template execute<TheBestPolicy>(); break;
                case 4: C = A += B; break; default: C = A -= B; }
                if (fit) CHECK(bool(C) && canonical(C).empty() && bb::ref(C) == e, "value:" + tag, str(bb::ref(C)) + " instead of " + str(e));
            });
            if (!fit) CHECK(no, "accepted:" + tag, std::to_string(r) + "x" + std::to_string(c) + " and " + std::to_string(s) + "x" + std::to_string(d));
            else if (op < 4) CHECK(!no, "rejected:" + tag, std::to_string(r) + "x" + std::to_string(c) + " and " + std::to_string(s) + "x" + std::to_string(d));
            Ref left = no || op < 4 ? ea : e;
            CHECK(A.get() == pa && canonical(A).empty() && bb::ref(A) == left, "left:" + tag, "the left operand is " + str(bb::ref(A)) + " instead of " + str(left));
            CHECK(B.get() == pb && canonical(B).empty() && bb::ref(B) == eb, "right:" + tag, "the right operand changed");
            ctx.outcome(std::string(names[op]) + (fit ? " fit" : " do not fit") + (no ? " refused" : " computed"));
        }
    }
    ctx.state(mc::Hash()(r)(c)(s)(d));
}
mc::Register r3("types known at run time", run_time, true);

struct Blocked { BlockedDenseMatrix m; Ref a; Part rp, cp; };
Blocked assemble(Ref a, Part const& rp, Part const& cp, int types)
{
    Blocked r{ BlockedDenseMatrix(rp.size(), cp.size(), a.r, a.c), a, rp, cp };
    for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) {
        Ref w = window(a, start(rp, I), start(cp, J), rp[I], cp[J]);
        int t = types < 7 ? types : int((types + 3 * I + 5 * J) % 7);
        if (t == 0) for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) r.a(start(rp, I) + i, start(cp, J) + j) = 0.0;
        r.m(I, J) = dynamic(t, w);
    }
    return r;
}

// blocked matrices: other numbers of blocks, other partitions of the inner dimension, other inner dimensions
void blocked(mc::Ctx& ctx)
{
    int n = ctx.tier(3, 4);
    size_t k = ctx.range(0, n, "columns of A"), l = ctx.range(0, n, "rows of B");
    auto kp = ctx.pick(compositions(k)); auto lp = ctx.pick(compositions(l));
    ctx.shard();
    static const std::vector<Part> outer{ {2}, {1, 1}, {1, 2}, {} };
    Part rp = ctx.pick(outer), cp = ctx.pick(outer);
    int ta = ctx.choose(9, "types of A"), tb = ctx.choose(9, "types of B");
    Blocked A = assemble(make(total(rp), k, code), rp, kp, ta), B = assemble(make(l, total(cp), other), lp, cp, tb);
    bool fit = kp == lp;
    bool seen = kp.size() != lp.size() || (rp.size() && cp.size());      // no block of the result: nothing to compare but the numbers of blocks
    for (int i = 0; i < 2; ++i) {
        std::string tag = i ? "blocked TheBestPolicy" : "blocked Native";
        ctx.note(tag);
        bool no = refused([&] {
            BlockedDenseMatrix c = i ? (A.m * B.m).template execute<TheBestPolicy>() : (A.m * B.m).template execute<Native>();
            if (fit) CHECK(bb::ref(D<double>(c)) == mul(A.a, B.a), "value:" + tag, str(bb::ref(D<double>(c))) + " instead of " + str(mul(A.a, B.a)));
        });
        if (fit) CHECK(!no, "rejected:" + tag, bb::str(kp));
        else if (seen) CHECK(no, "accepted:" + tag, "columns in blocks of " + bb::str(kp) + ", rows in blocks of " + bb::str(lp));
        for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < kp.size(); ++J) CHECK(bb::ref(A.m(I, J)) == window(A.a, start(rp, I), start(kp, J), rp[I], kp[J]), "left:" + tag, "a block of the left operand changed");
        for (size_t I = 0; I < lp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) CHECK(bb::ref(B.m(I, J)) == window(B.a, start(lp, I), start(cp, J), lp[I], cp[J]), "right:" + tag, "a block of the right operand changed");
        ctx.outcome(tag + (no ? " refused" : fit ? " computed" : " nothing to compute"));
    }
    ctx.state(mc::Hash()(bb::str(kp))(bb::str(lp))(bb::str(rp))(bb::str(cp))(size_t(ta))(size_t(tb)));
}
mc::Register r4("blocked", blocked, true);
#endif

} // namespace
