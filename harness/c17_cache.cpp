// C17: norm and occupation never go stale, whatever the history of queries and whole-matrix operations.
#define MC_MAIN
#include "universe.h"
#include <BlasBooster/Core/AbsoluteValueRangeChecker.h>
using namespace bb;

namespace {

typedef AbsoluteValueRangeChecker<double> Above;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound> Between;
size_t count(Ref const& a, double l, double u) { size_t n = 0; for (double x : a.v) n += std::fabs(x) > l && std::fabs(x) <= u; return n; }
double two(Ref const& a) { long double s = 0; for (double x : a.v) s += (long double)x * x; return double(std::sqrt(s)); }
const double inf = std::numeric_limits<double>::infinity();

struct Query { char const* name; double expected, got; };
template <class M> Query query(M const& m, Ref const& a, int q)
{
    double n = two(a);
    switch (q) {
    case 0: return { "getNorm", n, m.getNorm() };
    case 1: return { "isNormLargerThan", double(n > 3.9), double(m.isNormLargerThan(3.9)) };
    case 2: return { "isNormSmallerThan", double(n < 3.9), double(m.isNormSmallerThan(3.9)) };
    case 3: return { "number above 0", double(count(a, 0, inf)), double(m.getNbOfSignificantElements(Above(0.0))) };
    case 4: return { "number in (2.5,4]", double(count(a, 2.5, 4)), double(m.getNbOfSignificantElements(Between(2.5, 4.0))) };
    case 5: return { "occupation above 2.5", a.v.empty() ? 0.0 : double(count(a, 2.5, inf)) / a.v.size(), m.getOccupation(Above(2.5)) };
    default: return { "occupation larger than 0.5", double(!a.v.empty() && double(count(a, 0, inf)) / a.v.size() > 0.5), double(m.isOccupationLargerThan(0.5, Above(0.0))) };
    }
}
static const int nb_queries = 7;
std::string text(std::vector<std::string const*> const& h) { std::string s; for (auto x : h) s += (s.empty() ? "" : ", ") + *x; return s; }
template <class M> void ask(mc::Ctx& ctx, M const& m, Ref const& a, int q, std::string const& tag, std::vector<std::string const*> const& history, char const* when = "")
{
    Query x = query(m, a, q);
    CHECK(std::fabs(x.got - x.expected) <= 1e-12 * (1 + std::fabs(x.expected)), std::string(x.name) + ":" + tag, std::to_string(x.got) + " instead of " + std::to_string(x.expected) + " for " + str(a) + " after " + text(history) + when);
    CHECK(bb::ref(m) == a, std::string("changed by ") + x.name + ":" + tag, str(bb::ref(m)) + " instead of " + str(a) + " after " + text(history) + when);
}

template <class M, int Depth> void explore(mc::Ctx& ctx)
{
    static const std::vector<Op<M>> ops = operations<M>(2, false);
    std::string tag = kind<M>();
    Universe<M> u(2);
    int start = Depth > 3 ? 0 : ctx.choose(ctx.tier(1, 3), "contents"), warm = Depth > 3 ? 1 : ctx.choose(3, "asked before");
    static const int first[] = { 0, 0, 2 }, second[] = { 1, 2, 4 };
    u.s[0].m.reset(new M(build<M>(contents()[first[start]]))); u.s[0].r = contents()[first[start]]; u.s[0].life = Live;
    u.s[1].m.reset(new M(build<M>(contents()[second[start]]))); u.s[1].r = contents()[second[start]]; u.s[1].life = Live;
    ctx.note(tag);
    std::string const began = "start with " + str(u.s[0].r) + ", " + str(u.s[1].r);
    std::vector<std::string const*> history{ &began };
    static const std::string asked[] = { "everything asked", "norm and count asked", "m0 asked", "m1 asked" };
    auto all = [&](char const* when) { for (int i = 0; i < 2; ++i) if (u.live(i)) for (int q = 0; q < nb_queries; ++q) { M copy(static_cast<M const&>(*u.s[i].m)); ask(ctx, copy, u.s[i].r, q, tag, history, when); }   // every query as the first one
        for (int i = 0; i < 2; ++i) if (u.live(i)) for (int q = nb_queries - 1; q >= 0; --q) ask(ctx, *u.s[i].m, u.s[i].r, q, tag, history, when);
        // what an object still holds after it has been moved from is up to the library, but it answers for just that
        for (int i = 0; i < 2; ++i) if (u.there(i) && !u.live(i)) {
            M const& m = *u.s[i].m;
            double n = 0, c = 0; for (auto x : m) { n += double(x) * double(x); c += x != 0; }
            CHECK(std::fabs(m.getNorm() - std::sqrt(n)) <= 1e-12 * (1 + n), "getNorm:moved from:" + tag, std::to_string(m.getNorm()) + " instead of " + std::to_string(std::sqrt(n)) + " after " + text(history) + when);
            CHECK(m.getNbOfSignificantElements(Above(0.0)) == c, "number above 0:moved from:" + tag, std::to_string(m.getNbOfSignificantElements(Above(0.0))) + " instead of " + std::to_string(c) + " after " + text(history) + when);
        } };
    if (warm == 1) all(""), history.push_back(&asked[0]);
    if (warm == 2) { for (int i = 0; i < 2; ++i) { ask(ctx, *u.s[i].m, u.s[i].r, 0, tag, history); ask(ctx, *u.s[i].m, u.s[i].r, 3, tag, history); } history.push_back(&asked[1]); }
    int n = int(ops.size());
    static const int some[] = { 0, 3 };
    int nq = Depth > 3 ? 2 : ctx.tier(2, nb_queries);            // kinds of query in the midst of a history; all of them are asked at its end
    for (int d = 0; d < Depth; ++d) {
        int k = ctx.choose(n + nq * 2 + 1, "operation");
        if (d == 0) ctx.shard();
        if (k == 0) break;                       // shorter history
        if (--k < n) {
            try { if (!ops[k].run(u)) throw mc::Prune(); }
            catch (std::exception const& e) { CHECK(false, "exception:" + tag, std::string(e.what()) + " after " + text(history) + ", " + ops[k].name); }
            history.push_back(&ops[k].name);
            for (int i = 0; i < 2; ++i) if (u.live(i)) CHECK(bb::ref(*u.s[i].m) == u.s[i].r, "value:" + tag, str(bb::ref(*u.s[i].m)) + " instead of " + str(u.s[i].r) + " after " + text(history));
        } else {
            if (d + 1 == Depth) throw mc::Prune();   // everything is asked at the end anyway
            k -= n; int i = k / nq, q = nq == 2 ? some[k % nq] : k % nq;
            if (!u.live(i)) throw mc::Prune();
            ask(ctx, *u.s[i].m, u.s[i].r, q, tag, history);
            history.push_back(&asked[2 + i]);
        }
    }
    all(", finally");
    for (int i = 0; i < 2; ++i) ctx.state(mc::Hash()(tag)(u.live(i))(hash(u.s[i].r)));
    ctx.outcome(tag);
}
mc::Register r0("dense double", explore<D<double>, 3>, true), t0("dense double deep", explore<D<double>, 4>, true, true);
mc::Register r1("dense float row-major", explore<D<float, RM>, 3>, true), t1("dense float row-major deep", explore<D<float, RM>, 4>, true, true);
mc::Register r2("sparse double", explore<S<double>, 3>, true), t2("sparse double deep", explore<S<double>, 4>, true, true);
mc::Register r3("sparse float row-major", explore<S<float, RM>, 3>, true), t3("sparse float row-major deep", explore<S<float, RM>, 4>, true, true);

} // namespace
