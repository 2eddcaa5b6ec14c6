// C35: a matrix of two parts is the sum of its parts in every history and never mixes dimensions.
#define MC_MAIN
#include "bb.h"
using namespace bb;

namespace {

/// values below, among and above the thresholds, no two parts alike
double small(size_t i, size_t j) { static const double x[] = { 0.0625, -3.0, 0.0, 0.5, -0.03125, 2.0, 0.0, -0.75 }; return x[(i * 5 + j * 3) % 8]; }
double other(size_t i, size_t j) { static const double x[] = { -1.5, 0.0, 0.03125, 4.0, 0.0, -0.0625, 0.25 }; return x[(i * 3 + j * 2) % 7]; }

template <class M> struct Fill { static std::shared_ptr<M> make(Ref const& a) { return std::make_shared<M>(sparse<typename M::value_type>(a)); } };
template <class T> struct Fill<D<T>> { static std::shared_ptr<D<T>> make(Ref const& a) { return std::make_shared<D<T>>(dense<T>(a)); } };

/// the parts among which a history chooses: 0 is no part at all
template <class M> struct Pool
{
    std::vector<std::shared_ptr<M>> p;
    std::vector<Ref> r;
    Pool(std::vector<std::pair<size_t, size_t>> const& shapes, bool second)
    {
        p.push_back(nullptr); r.push_back(Ref());
        for (size_t k = 0; k < shapes.size(); ++k) {
            Ref a = bb::make(shapes[k].first, shapes[k].second, [&](size_t i, size_t j) { return (second ? other(i + k, j) : small(i, j + k)); });
            r.push_back(a); p.push_back(Fill<M>::make(a));
        }
    }
};

template <class MM, class M1, class M2> struct World
{
    mc::Ctx& ctx; std::string tag;
    Pool<M1> a; Pool<M2> b;
    struct Slot { std::unique_ptr<MM> m; int i = 0, j = 0; };
    Slot s[2];
    World(mc::Ctx& ctx, std::string const& tag, std::vector<std::pair<size_t, size_t>> const& shapes) : ctx(ctx), tag(tag), a(shapes, false), b(shapes, true) {}

    bool fits(int i, int j) const { return !i || !j || (a.r[i].r == b.r[j].r && a.r[i].c == b.r[j].c); }

    void verify()
    {
        for (size_t i = 1; i < a.p.size(); ++i) { long n = 1; for (auto& x : s) n += x.m && x.i == int(i); CHECK(a.p[i].use_count() == n, "owners:" + tag, "part 1." + std::to_string(i) + " has " + std::to_string(a.p[i].use_count()) + " owners, expected " + std::to_string(n)); }
        for (size_t i = 1; i < b.p.size(); ++i) { long n = 1; for (auto& x : s) n += x.m && x.j == int(i); CHECK(b.p[i].use_count() == n, "owners:" + tag, "part 2." + std::to_string(i) + " has " + std::to_string(b.p[i].use_count()) + " owners, expected " + std::to_string(n)); }
        for (auto& x : s) {
            if (!x.m) continue;
            if (x.i) {
                CHECK(&x.m->getMatrix1() == a.p[x.i].get(), "part 1:" + tag, "not the one set last");
                CHECK(x.m->getNbRows() == a.r[x.i].r && x.m->getNbColumns() == a.r[x.i].c, "dimension:" + tag, std::to_string(x.m->getNbRows()) + "x" + std::to_string(x.m->getNbColumns()));
                CHECK(bb::ref(x.m->getMatrix1()) == a.r[x.i], "elements 1:" + tag, str(a.r[x.i]));
            }
            if (x.j) {
                CHECK(&x.m->getMatrix2() == b.p[x.j].get(), "part 2:" + tag, "not the one set last");
                CHECK(bb::ref(x.m->getMatrix2()) == b.r[x.j], "elements 2:" + tag, str(b.r[x.j]));
            }
            if (x.i && x.j) {
                CHECK(x.m->getMatrix1().getNbRows() == x.m->getMatrix2().getNbRows() && x.m->getMatrix1().getNbColumns() == x.m->getMatrix2().getNbColumns(), "shapes:" + tag, "parts of different dimensions");
                CHECK(bb::ref(*x.m) == add(a.r[x.i], b.r[x.j]), "sum:" + tag, str(add(a.r[x.i], b.r[x.j])));
            }
        }
        mc::Hash h; for (auto& x : s) { h(bool(x.m))(x.i)(x.j); } ctx.state(h);
    }

    bool rejected(std::function<void()> const& f)
    {
        try { f(); } catch (std::exception const&) { return true; }
        return false;
    }

    void step()
    {
        enum { Construct, Reset, CopyConstruct, MoveConstruct, CopyAssign, MoveAssign, Swap, Clear, Write, Destroy, Self };
        int k = ctx.choose(2, "object"); Slot& x = s[k]; Slot& y = s[1 - k];
        int op = ctx.choose(11, "operation");
        if (op == Construct || op == Reset) {
            int i = ctx.choose(int(a.p.size()), "part 1"), j = ctx.choose(int(b.p.size()), "part 2");
            if (op == Reset && !x.m) throw mc::Prune();
            std::unique_ptr<MM> fresh;
            bool no = rejected([&] { if (op == Construct) fresh.reset(new MM(a.p[i], b.p[j])); else x.m->reset(a.p[i], b.p[j]); });
            CHECK(no == !fits(i, j), (no ? "rejected:" : "accepted:") + tag, str(a.r[i]) + " and " + str(b.r[j]));
            if (op == Construct && !no) x.m = std::move(fresh);
            if (!no) { x.i = i; x.j = j; }
            ctx.outcome(no ? "rejected" : "accepted");
        }
        else if (op == CopyConstruct) { if (!y.m) throw mc::Prune(); x.m.reset(new MM(*y.m)); x.i = y.i; x.j = y.j; }
        else if (op == MoveConstruct) { if (!y.m) throw mc::Prune(); x.m.reset(new MM(std::move(*y.m))); x.i = y.i; x.j = y.j; y.m.reset(); y.i = y.j = 0; }
        else if (op == CopyAssign) { if (!y.m || !x.m) throw mc::Prune(); *x.m = *y.m; x.i = y.i; x.j = y.j; }
        else if (op == MoveAssign) { if (!y.m || !x.m) throw mc::Prune(); *x.m = std::move(*y.m); x.i = y.i; x.j = y.j; y.m.reset(); y.i = y.j = 0; }
        else if (op == Swap) { if (!k || !y.m || !x.m) throw mc::Prune(); std::swap(*x.m, *y.m); std::swap(x.i, y.i); std::swap(x.j, y.j); }
        else if (op == Clear) { if (!x.m) throw mc::Prune(); x.m->reset(); x.i = x.j = 0; }
        else if (op == Self) { if (!x.m) throw mc::Prune(); MM& z = *x.m; *x.m = z; }
        else if (op == Destroy) { if (!x.m) throw mc::Prune(); x.m.reset(); x.i = x.j = 0; }
        else if (op == Write) {   // a part is shared: a change is seen by everyone who has it
            if (!x.m) throw mc::Prune();
            if (ctx.flag("second")) {
                if (!x.j) throw mc::Prune();
                Ref n = bb::make(b.r[x.j].r, b.r[x.j].c, [&](size_t i, size_t j) { return -2.0 * b.r[x.j](i, j) + (i == j ? 0.25 : 0.0); });
                x.m->getMatrix2() = *Fill<M2>::make(n); b.r[x.j] = n;
            } else {
                if (!x.i) throw mc::Prune();
                Ref n = bb::make(a.r[x.i].r, a.r[x.i].c, [&](size_t i, size_t j) { return -2.0 * a.r[x.i](i, j) + (i == j ? 0.25 : 0.0); });
                x.m->getMatrix1() = *Fill<M1>::make(n); a.r[x.i] = n;
            }
        }
    }
};

typedef std::vector<std::pair<size_t, size_t>> Shapes;

template <class MM, class M1, class M2> void histories(mc::Ctx& ctx, std::string const& tag, Shapes const& shapes, int depth)
{
    long before = live();
    {
        World<MM, M1, M2> w(ctx, tag, shapes);
        for (int d = 0; d < depth; ++d) {
            w.step();
            w.verify();
            if (d == 0) ctx.shard();
        }
        ctx.note(std::to_string(depth) + " steps");
    }
    CHECK(live() == before, "leak:" + tag, std::to_string(live() - before));
}
void run(mc::Ctx& ctx, Shapes const& shapes, int depth)
{
    if (ctx.flag("dense part")) histories<MSD, S<double>, D<float>>(ctx, "sparse and dense", shapes, depth);
    else histories<MSS, S<double>, S<float>>(ctx, "sparse and sparse", shapes, depth);
}
/// every pair of parts whose rows, columns or both differ
void shapes(mc::Ctx& ctx) { run(ctx, Shapes{ {2, 3}, {2, 3}, {3, 3}, {2, 2}, {3, 2}, {6, 1}, {0, 3}, {2, 0}, {0, 0} }, 2); }
mc::Register r0("shapes", shapes, true);
void sequences(mc::Ctx& ctx) { run(ctx, Shapes{ {2, 3}, {2, 3}, {3, 3} }, ctx.tier(3, 4)); }
mc::Register r1("sequences", sequences, true);

/// what such a matrix cannot tell is refused, never answered wrongly
void answers(mc::Ctx& ctx)
{
    size_t r = ctx.range(0, 4, "rows"), c = ctx.range(0, 4, "columns");
    int p = ctx.choose(nb_structured, "part 1"), q = ctx.choose(nb_structured, "part 2"); bool dense_part = ctx.flag("dense part");
    Ref a = structured(r, c, p, small), b = structured(r, c, q, other), sum = add(a, b);
    double one = 0.0; for (double x : sum.v) one += x * x; one = std::sqrt(one);
    auto go = [&](auto const& m, std::string const& tag) {
        int answered = 0;
        auto ask = [&](std::string const& what, std::function<bool()> const& f) {
            try { bool ok = f(); ++answered; CHECK(ok, what + ":" + tag, str(sum)); } catch (CoreException const&) {}
        };
        double n = double(sum.nnz()) / double(r * c);
        ask("getNorm", [&] { double x = m.getNorm(); return std::abs(x - one) < 1e-12; });
        ask("isNormLargerThan", [&] { return m.isNormLargerThan(one / 2) == (one > 0); });
        if (r * c) {
            ask("getOccupation", [&] { return std::abs(m.getOccupation() - n) < 1e-12; });
            ask("getOccupation(checker)", [&] { return std::abs(m.getOccupation(AbsoluteValueRangeChecker<double>(0.0)) - n) < 1e-12; });
            ask("isOccupationLargerThan", [&] { return m.isOccupationLargerThan(n / 2) == (n > 0); });
            ask("isOccupationLargerThan(checker)", [&] { return m.isOccupationLargerThan(n / 2, AbsoluteValueRangeChecker<double>(0.0)) == (n > 0); });
        }
        ctx.outcome(answered ? "answered" : "refused");
        CHECK(m.getNbRows() == r && m.getNbColumns() == c, "dimension:" + tag, str(sum));
    };
    if (dense_part) { MSD m(Fill<S<double>>::make(a), Fill<D<float>>::make(b)); go(m, "sparse and dense"); CHECK(m.getTypeInfo() == typeid(MSD), "type", ""); CHECK(m.getTypeIndex() == dynamic(5, sum)->getTypeIndex(), "type index", ""); }
    else { MSS m(Fill<S<double>>::make(a), Fill<S<float>>::make(b)); go(m, "sparse and sparse"); CHECK(m.getTypeInfo() == typeid(MSS), "type", ""); CHECK(m.getTypeIndex() == dynamic(4, sum)->getTypeIndex(), "type index", ""); }
}
mc::Register r2("answers", answers);

} // namespace
