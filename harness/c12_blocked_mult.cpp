// C12: multiplying blocked matrices equals multiplying the matrices.
#define MC_MAIN
#include "blocked.h"
using namespace bb;

namespace {

struct Blocked { BlockedDenseMatrix m; Ref a; Part rp, cp; };

/// blocked matrix of the values a with the given block types (a is zeroed below zero blocks)
template <class Types> Blocked assemble(Ref a, Part const& rp, Part const& cp, Types const& type)
{
    BlockedDenseMatrix b(rp.size(), cp.size(), a.r, a.c);
    for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) {
        Ref w = window(a, start(rp, I), start(cp, J), rp[I], cp[J]);
        int t = type(I, J);
        if (t == 0) { w = Ref(w.r, w.c); for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) a(start(rp, I) + i, start(cp, J) + j) = 0.0; }
        b(I, J) = dynamic(t, w);
    }
    return { b, a, rp, cp };
}

void sane(mc::Ctx& ctx, Blocked const& b, std::string const& tag)
{
    BlockedDenseMatrix const& m = b.m;
    CHECK(m.getNbRows() == b.rp.size() && m.getNbColumns() == b.cp.size() && m.getSize() == b.rp.size() * b.cp.size(), "blocks:" + tag, "the result has " + std::to_string(m.getNbRows()) + "x" + std::to_string(m.getNbColumns()) + " blocks");
    CHECK(m.getUnblockedRows() == b.a.r && m.getUnblockedColumns() == b.a.c, "unblocked:" + tag, "unblocked dimensions " + std::to_string(m.getUnblockedRows()) + "x" + std::to_string(m.getUnblockedColumns()));
    for (size_t I = 0; I < b.rp.size(); ++I) for (size_t J = 0; J < b.cp.size(); ++J) {
        DynamicMatrix x = m(I, J);
        CHECK(bool(x), "null:" + tag, "block " + std::to_string(I) + "," + std::to_string(J) + " is missing");
        CHECK(x->getTypeIndex() < 7 && canonical(x).empty(), "canonical:" + tag, canonical(x));
        CHECK(getNbRows(x) == b.rp[I] && getNbColumns(x) == b.cp[J] && getSize(x) == b.rp[I] * b.cp[J], "block dim:" + tag, "block " + std::to_string(I) + "," + std::to_string(J) + " is " + std::to_string(getNbRows(x)) + "x" + std::to_string(getNbColumns(x)));
        Ref w = window(b.a, start(b.rp, I), start(b.cp, J), b.rp[I], b.cp[J]);
        CHECK(bb::ref(x) == w, "block:" + tag, "block " + std::to_string(I) + "," + std::to_string(J) + " (" + dyn_names[x->getTypeIndex()] + ") is " + str(bb::ref(x)) + " instead of " + str(w));
    }
    CHECK(bb::ref(D<double>(m)) == b.a, "value:" + tag, str(bb::ref(D<double>(m))) + " instead of " + str(b.a));
}

void multiply(mc::Ctx& ctx, Blocked const& A, Blocked const& B, std::string const& tag)
{
    auto blocks = [](Blocked const& b) { std::vector<MatrixBase*> p; for (auto const& x : b.m) p.push_back(x.get()); return p; };
    auto before_a = blocks(A), before_b = blocks(B);
    Blocked e{ BlockedDenseMatrix(), mul(A.a, B.a), A.rp, B.cp };
    for (int k = 0; k < 3; ++k) {
        std::string t = tag + (k == 0 ? ":Native" : k == 1 ? ":TheBestPolicy" : ":reused result");
        ctx.note(t);
        bool done = true;
        if (k == 2) { e.m = assemble(make(2, 3, code), Part{ 1, 1 }, Part{ 2, 1 }, [](size_t, size_t) { return 6; }).m; }
        try { if (k == 0) e.m = (A.m * B.m).template execute<Native>(); else e.m = (A.m * B.m).template execute<TheBestPolicy>(); }
        catch (std::exception const& x) { done = false; ctx.outcome(t + " rejected: " + x.what()); }
        if (done) { sane(ctx, e, t); ctx.outcome(t); }
        CHECK(blocks(A) == before_a && blocks(B) == before_b, "replaced:" + t, "a block of an operand was replaced");
        sane(ctx, A, "operand A:" + t); sane(ctx, B, "operand B:" + t);
    }
    ctx.state(mc::Hash()(tag)(hash(A.a))(hash(B.a))(bb::str(A.rp))(bb::str(A.cp))(bb::str(B.cp))(ctx.prefix));
}

double other(size_t i, size_t j) { return (i + j) % 2 ? -code(i, j) : code(i, j) + 1.0; }

// every block type at every place:  (1 x n) * (n x 1) and (n x 1) * (1 x n) blocks
void inner(mc::Ctx& ctx)
{
    int n = ctx.thorough() && ctx.flag("three inner blocks") ? 3 : 2;
    bool swap = ctx.flag("swap");
    static const std::vector<Part> p2{ {2, 1}, {1, 1} }, p3{ {1, 2, 1} };
    Part k = n == 2 ? ctx.pick(p2) : p3[0];
    std::vector<int> ta, tb;
    for (int i = 0; i < n; ++i) { ta.push_back(ctx.choose(7, "type A")); if (i == 1) ctx.shard(); }
    for (int i = 0; i < n; ++i) tb.push_back(ctx.choose(7, "type B"));
    Part o{ 2 }, p{ 3 };
    if (!swap) multiply(ctx, assemble(make(2, total(k), code), o, k, [&](size_t, size_t J) { return ta[J]; }), assemble(make(total(k), 3, other), k, p, [&](size_t I, size_t) { return tb[I]; }), "inner");
    else multiply(ctx, assemble(make(total(k), 2, code), k, o, [&](size_t I, size_t) { return ta[I]; }), assemble(make(2, total(k), other), o, k, [&](size_t, size_t J) { return tb[J]; }), "outer");
}
mc::Register r1("block types", inner, true);

// 2x2 blocks each: all types of A, some of B and the other way round
void four(mc::Ctx& ctx)
{
    int t[4]; for (int i = 0; i < 4; ++i) { t[i] = ctx.choose(7, "type"); if (i == 1) ctx.shard(); }
    int nb = ctx.tier(6, 49), s = ctx.choose(nb, "types of the other");
    bool swap = ctx.flag("swap");
    Part rp{ 1, 2 }, kp{ 2, 1 }, cp{ 1, 1 };
    auto given = [&](size_t I, size_t J) { return t[2 * I + J]; };
    auto some = [&](size_t I, size_t J) { return ctx.thorough() ? int(I == J ? s % 7 : s / 7) : int((s * 5 + 3 * I + J * (s + 1)) % 7); };
    if (!swap) multiply(ctx, assemble(make(3, 3, code), rp, kp, given), assemble(make(3, 2, other), kp, cp, some), "2x2");
    else multiply(ctx, assemble(make(3, 3, code), rp, kp, some), assemble(make(3, 2, other), kp, cp, given), "2x2 swapped");
}
mc::Register r2("2x2 blocks", four, true);

// every partition triple, blocks as the generator makes them
void partitions(mc::Ctx& ctx)
{
    const double d = std::ldexp(1.0, -30), f = std::ldexp(1.0, -10), med = std::ldexp(1.0, -20);
    Threshold thr(ThresholdSettings().set_significanceThresholdDoublePrecision(d).set_significanceThresholdSinglePrecision(f)
        .set_occupationThresholdMatrixSparseFloatDoublePrecision(0.5).set_occupationThresholdMatrixSparseDoubleSinglePrecision(0.5).set_occupationThresholdMatrixSparseDoubleDoublePrecision(0.5)
        .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(0.5).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(0.75)
        .set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(0.5));
    int n = ctx.tier(3, 5);
    size_t m = ctx.range(0, n, "rows"), k = ctx.range(0, n, "inner"), c = ctx.range(0, n, "columns");
    ctx.shard();
    auto rp = ctx.pick(compositions(m)), kp = ctx.pick(compositions(k)), cp = ctx.pick(compositions(c));
    int x = ctx.choose(6, "magnitudes of A"), y = ctx.choose(6, "magnitudes of B");
    auto mag = [&](int p, size_t i, size_t j) -> double {
        switch (p) {
        case 0: return 1.0;
        case 1: return i == j ? 1.0 : 0.0;
        case 2: return (i + j) % 2 ? med : 0.0;
        case 3: return i == 0 ? 1.0 : med;
        case 4: return j == 0 ? 0.0 : med;
        default: { int q = (i + 2 * j) % 3; return q == 0 ? 1.0 : q == 1 ? med : 0.0; }
        }
    };
    Ref a = make(m, k, [&](size_t i, size_t j) { return code(i, j) * mag(x, i, j); }), b = make(k, c, [&](size_t i, size_t j) { return other(i, j) * mag(y, i, j); });
    Blocked A{ BlockedMatrixGenerator()(dense<double>(a), rp, kp, thr), a, rp, kp }, B{ BlockedMatrixGenerator()(dense<double>(b), kp, cp, thr), b, kp, cp };
    multiply(ctx, A, B, "partitions");
}
mc::Register r3("partitions", partitions, true);

// large blocks, and many of them
void wide(mc::Ctx& ctx)
{
    static const std::vector<Part> q{ {1}, {9}, {17, 16}, {1, 33}, {5, 8, 4}, {1, 1, 1, 1, 1, 1, 1, 1, 1}, {3, 3, 3, 3, 2} }, t{ {1}, {9}, {17, 16}, {1, 33}, {33, 1}, {5, 8, 4}, {64}, {31, 32, 33}, {1, 1, 1, 1, 1, 1, 1, 1, 1}, {3, 3, 3, 3, 2}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2} };
    auto const& ps = ctx.thorough() ? t : q;
    Part rp = ctx.pick(ps, "rows"), kp = ctx.pick(ps, "inner"), cp = ctx.pick(ps, "columns");
    ctx.shard();
    int x = ctx.choose(ctx.tier(4, 7), "types of A"), y = ctx.choose(ctx.tier(3, 7), "types of B"), p = ctx.choose(2, "sparse values");
    auto v = [p](size_t i, size_t j) { return p && (i + 2 * j) % 5 ? 0.0 : wcode(i, j); };
    Blocked A = assemble(make(total(rp), total(kp), v), rp, kp, [&](size_t I, size_t J) { return int((I * 2 + J * 3 + x * 2) % 7); });
    Blocked B = assemble(make(total(kp), total(cp), wother), kp, cp, [&](size_t I, size_t J) { return int((I * 5 + J + y * 3) % 7); });
    multiply(ctx, A, B, "wide");
}
mc::Register r5("wide", wide, true);

// chains: (A*B)*C with blocks of every type produced by the library itself
void chain(mc::Ctx& ctx)
{
    int t[4]; for (int i = 0; i < 4; ++i) t[i] = ctx.choose(7, "type");
    ctx.shard();
    Part p{ 1, 2 };
    auto small = [](size_t i, size_t j) { return double(int((i * 7 + j * 3) % 5) - 2); };
    Blocked A = assemble(make(3, 3, small), p, p, [&](size_t I, size_t J) { return t[2 * I + J]; });
    Blocked e{ A.m, A.a, p, p };
    ctx.note("chain");
    for (int step = 0; step < 3; ++step) {
        e.a = mul(e.a, A.a);
        e.m = (e.m * A.m).template execute<TheBestPolicy>();
        sane(ctx, e, "chain");
    }
    sane(ctx, A, "operand:chain");
    ctx.state(mc::Hash()("chain")(hash(e.a))(ctx.prefix));
}
mc::Register r4("chain", chain, true);

} // namespace
