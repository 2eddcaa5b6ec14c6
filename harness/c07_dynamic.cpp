// C07: dynamic matrices add, subtract and multiply like the matrices they hold, for all 49 type pairs.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "bb.h"
#include <BlasBooster/Core/Multiplication_TheBestPolicy.h>
using namespace bb;

namespace {

std::type_info const& type_of(int t)
{
    switch (t) {
    case 0: return typeid(Z);
    case 1: return typeid(S<float>);
    case 2: return typeid(D<float>);
    case 3: return typeid(S<double>);
    case 4: return typeid(MSS);
    case 5: return typeid(MSD);
    default: return typeid(D<double>);
    }
}

// the matrix behind the pointer is really of the type its index claims
void sane(mc::Ctx& ctx, DynamicMatrix const& m, std::string const& tag)
{
    CHECK(bool(m), "null:" + tag, "no matrix");
    CHECK(m->getTypeIndex() < 7, "index:" + tag, "type index " + std::to_string(m->getTypeIndex()) + " is not in the list of dynamic types");
    CHECK(typeid(*m) == type_of(int(m->getTypeIndex())), "type:" + tag, "type index does not belong to the matrix held");
    CHECK(m->getTypeInfo() == type_of(int(m->getTypeIndex())), "typeinfo:" + tag, "getTypeInfo() does not belong to the matrix held");
    CHECK(canonical(m).empty(), "canonical:" + tag, canonical(m));
}
void is(mc::Ctx& ctx, DynamicMatrix const& m, Ref const& e, std::string const& tag)
{
    sane(ctx, m, tag);
    CHECK(getNbRows(m) == e.r && getNbColumns(m) == e.c && getSize(m) == e.r * e.c, "dim:" + tag, "result is " + std::to_string(getNbRows(m)) + "x" + std::to_string(getNbColumns(m)) + " instead of " + std::to_string(e.r) + "x" + std::to_string(e.c));
    Ref x = bb::ref(m);
    CHECK(x == e, "value:" + tag, str(x) + " instead of " + str(e));
}

Ref held(int type, Ref const& a) { return type == 0 ? Ref(a.r, a.c) : a; }

template <class Op> void pair(mc::Ctx& ctx, char const* name, int ta, int tb, Ref a, Ref b, Op const& op, Ref const& e)
{
    std::string tag = std::string(name) + ":" + dyn_names[ta] + "," + dyn_names[tb];
    ctx.note(tag);
    auto A = dynamic(ta, a), B = dynamic(tb, b);
    is(ctx, A, a, "operand A:" + tag); is(ctx, B, b, "operand B:" + tag);
    MatrixBase const* pa = A.get(); MatrixBase const* pb = B.get();
    bool done = true;
    std::string what;
    for (int repeat = 0; repeat < 2; ++repeat) {
        DynamicMatrix c;
        try { c = op(A, B); }
        catch (mc::Failure const&) { throw; }
        catch (std::exception const& x) { CHECK(repeat == 0 || !done, "unstable:" + tag, "the second call throws"); done = false; what = x.what(); }
        if (done) {
            is(ctx, c, e, tag);
            CHECK(c != A && c != B, "alias:" + tag, "the result is one of the operands");
        }
        CHECK(A.get() == pa && B.get() == pb, "pointer:" + tag, "an operand points to another matrix");
        is(ctx, A, a, "left changed:" + tag); is(ctx, B, b, "right changed:" + tag);
    }
    ctx.state(mc::Hash()(tag)(hash(a))(hash(b)));
    ctx.outcome(tag + (done ? " computed" : " rejected"));
}

[[maybe_unused]] double other(size_t i, size_t j) { return (i + j) % 2 ? -code(i, j) : code(i, j) + 1.0; }

#if MC_PART < 2
const double sign = MC_PART == 0 ? 1.0 : -1.0;
const char* const opname = MC_PART == 0 ? "+" : "-";
struct Sum { DynamicMatrix operator()(DynamicMatrix const& a, DynamicMatrix const& b) const {
#if MC_PART == 0
    return a + b;
#else
    return a - b;
#endif
} };

void types(mc::Ctx& ctx, Ref const& a0, Ref const& b0)
{
    for (int ta = 0; ta < 7; ++ta) for (int tb = 0; tb < 7; ++tb) {
        Ref a = held(ta, a0), b = held(tb, b0);
        pair(ctx, opname, ta, tb, a, b, Sum(), add(a, b, sign));
    }
    // the same matrix on both sides
    for (int t = 0; t < 7; ++t) {
        std::string tag = std::string("same ") + opname + ":" + dyn_names[t];
        ctx.note(tag);
        Ref a = held(t, a0);
        auto A = dynamic(t, a);
        auto c = Sum()(A, A);
        is(ctx, c, add(a, a, sign), tag);
        is(ctx, A, a, "changed:" + tag);
    }
}
void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2} };
    static const std::vector<std::pair<size_t, size_t>> sht{ {0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    unsigned long x = ctx.choose(1 << (s.first * s.second), "pattern of A"), y = ctx.choose(1 << (s.first * s.second), "pattern of B");
    ctx.shard();
    types(ctx, pattern(s.first, s.second, x), pattern(s.first, s.second, y, other));
}
void structures(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {3, 4}, {4, 3}, {2, 5}, {7, 1}, {1, 7}, {9, 16} };
    auto s = ctx.pick(sh);
    int x = ctx.choose(nb_structured, "pattern of A"), y = ctx.choose(nb_structured, "pattern of B");
    ctx.shard();
    types(ctx, structured(s.first, s.second, x), structured(s.first, s.second, y, other));
}
mc::Register r1(std::string("patterns ") + opname, patterns, true);
void wide(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(2500, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    auto p = ctx.pick(big_patterns(ctx.thorough()));
    types(ctx, structured(r, c, p.first), structured(r, c, p.second, other));
}
mc::Register r2(std::string("structured ") + opname, structures, true);
mc::Register r3(std::string("wide ") + opname, wide, true);

#elif MC_PART < 4
#if MC_PART == 2
typedef Native I; const char* const opname = "*Native";
#else
typedef TheBestPolicy I; const char* const opname = "*TheBestPolicy";
#endif
struct Prod { DynamicMatrix operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { return (a * b).template execute<I>(); } };
void types(mc::Ctx& ctx, Ref const& a0, Ref const& b0)
{
    for (int ta = 0; ta < 7; ++ta) for (int tb = 0; tb < 7; ++tb) {
        Ref a = held(ta, a0), b = held(tb, b0);
        pair(ctx, opname, ta, tb, a, b, Prod(), mul(a, b));
    }
}
void shapes(mc::Ctx& ctx)
{
    int n = ctx.tier(3, 4);
    size_t m = ctx.range(0, n, "rows"), k = ctx.range(0, n, "inner"), c = ctx.range(0, n, "columns");
    int x = ctx.choose(nb_structured, "pattern of A"), y = ctx.choose(nb_structured, "pattern of B");
    ctx.shard();
    types(ctx, structured(m, k, x), structured(k, c, y, other));
}
void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> sh{ {1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {3, 2, 1} };
    static const std::vector<std::array<size_t, 3>> sht{ {1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {3, 2, 1}, {2, 3, 2}, {1, 4, 1}, {3, 1, 3} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    unsigned long x = ctx.choose(1 << (s[0] * s[1]), "pattern of A"), y = ctx.choose(1 << (s[1] * s[2]), "pattern of B");
    ctx.shard();
    types(ctx, pattern(s[0], s[1], x), pattern(s[1], s[2], y, other));
}
mc::Register r1(std::string("patterns ") + opname, patterns, true);
mc::Register r2(std::string("shapes ") + opname, shapes, true);
void wide(mc::Ctx& ctx)
{
    auto s = ctx.pick(big_triples(ctx.thorough()));
    auto p = ctx.pick(big_patterns(ctx.thorough()));
    ctx.shard();
    types(ctx, structured(s[0], s[1], p.first, wcode), structured(s[1], s[2], p.second, wother));
}
mc::Register r3(std::string("wide ") + opname, wide, true);

#else
// in-place: the left operand becomes the sum or difference, or the operation throws and nothing changes
void inplace(mc::Ctx& ctx, Ref const& a0, Ref const& b0)
{
    for (int ta = 0; ta < 7; ++ta) for (int tb = 0; tb < 7; ++tb) for (int s = 1; s >= -1; s -= 2) {
        Ref a = held(ta, a0), b = held(tb, b0);
        std::string tag = std::string(s > 0 ? "+=:" : "-=:") + dyn_names[ta] + "," + dyn_names[tb];
        ctx.note(tag);
        auto A = dynamic(ta, a), B = dynamic(tb, b);
        bool done = true;
        DynamicMatrix r;
        try { r = s > 0 ? (A += B) : (A -= B); }
        catch (mc::Failure const&) { throw; }
        catch (std::exception const&) { done = false; }
        if (done) CHECK(r == A, "returned:" + tag, "the operator returns another matrix than its left operand");
        CHECK(int(A->getTypeIndex()) == ta && int(B->getTypeIndex()) == tb, "type:" + tag, "an operand changed its type");
        is(ctx, A, done ? add(a, b, s) : a, tag + (done ? "" : " rejected")); is(ctx, B, b, "right changed:" + tag);
        ctx.state(mc::Hash()(tag)(hash(a))(hash(b)));
        ctx.outcome(tag + (done ? " computed" : " rejected"));
    }
}

// what the dynamic interface tells about a matrix
void query(mc::Ctx& ctx, Ref const& a0)
{
    for (int t = 0; t < 7; ++t) {
        Ref a = held(t, a0);
        std::string tag = std::string("query:") + dyn_names[t];
        ctx.note(tag);
        auto A = dynamic(t, a);
        is(ctx, A, a, tag);
        CHECK(int(A->getTypeIndex()) == t, "index:" + tag, "wrong type index");
        double sq = 0.0, one = 0.0, mx = 0.0;
        for (double v : a.v) { sq += v * v; one += std::abs(v); mx = std::max(mx, std::abs(v)); }
        double two = std::sqrt(sq);
        auto close = [](double x, double y) { return std::abs(x - y) <= 1e-12 * (1.0 + std::abs(y)); };
        if (t == 4 || t == 5) {
            // no cached norm for multiple matrices: rejected, never a wrong value
            bool thrown = false; double v = -1.0;
            try { v = getNorm(A); } catch (std::exception const&) { thrown = true; }
            CHECK(thrown || close(v, two), "getNorm:" + tag, "norm " + std::to_string(v) + " instead of " + std::to_string(two));
            ctx.outcome(tag + (thrown ? " norm rejected" : " norm computed"));
        } else {
            CHECK(close(getNorm(A), two), "getNorm:" + tag, "norm " + std::to_string(getNorm(A)) + " instead of " + std::to_string(two));
            for (double l : { 0.0, two * 0.5, two - 0.01, two + 0.01, two * 2.0 + 1.0, -1.0 })
                CHECK(isNormLargerThan(A, l) == (two > l), "isNormLargerThan:" + tag, "limit " + std::to_string(l) + " norm " + std::to_string(two));
        }
        CHECK((close(norm<NormTwo>(A), two)), "NormTwo:" + tag, "norm " + std::to_string(norm<NormTwo>(A)) + " instead of " + std::to_string(two));
        is(ctx, A, a, "changed:" + tag);
    }
}
void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2} };
    static const std::vector<std::pair<size_t, size_t>> sht{ {0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    unsigned long x = ctx.choose(1 << (s.first * s.second), "pattern of A"), y = ctx.choose(1 << (s.first * s.second), "pattern of B");
    ctx.shard();
    inplace(ctx, pattern(s.first, s.second, x), pattern(s.first, s.second, y, other));
    if (y == 0) query(ctx, pattern(s.first, s.second, x));
}
void structures(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {3, 4}, {4, 3}, {2, 5}, {7, 1}, {1, 7}, {9, 16} };
    auto s = ctx.pick(sh);
    int x = ctx.choose(nb_structured, "pattern of A"), y = ctx.choose(nb_structured, "pattern of B");
    ctx.shard();
    inplace(ctx, structured(s.first, s.second, x), structured(s.first, s.second, y, other));
    if (y == 0) query(ctx, structured(s.first, s.second, x));
}
mc::Register r1("patterns += -=", patterns, true);
void wide(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(2500, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    auto p = ctx.pick(big_patterns(ctx.thorough()));
    inplace(ctx, structured(r, c, p.first), structured(r, c, p.second, other));
    query(ctx, structured(r, c, p.first));
}
mc::Register r2("structured += -=", structures, true);
mc::Register r4("wide += -=", wide, true);

// names of the dynamic types
void names(mc::Ctx& ctx)
{
    CHECK(TypeName<DynamicMatrix>::value() == "DynamicMatrix" && TypeName<ConstDynamicMatrix>::value() == "ConstDynamicMatrix", "name", "TypeName");
    std::set<std::string> all;
    for (int t = 0; t < 7; ++t) {
        auto A = dynamic(t, Ref(1, 1, 1.0));
        CHECK(A->getTypeInfo() == type_of(t), "typeinfo", dyn_names[t]);
    }
    std::string n[] = { Z::name(), S<float>::name(), D<float>::name(), S<double>::name(), TypeName<MSS>::value(), D<double>::name() };
    for (auto& s : n) { CHECK(!s.empty() && all.insert(s).second, "name", "two dynamic types share the name " + s); ctx.sample(s); }
}
mc::Register r3("names", names);
#endif

} // namespace
