// C34: memory which runs out at any allocation of any operation is reported and corrupts nothing.
// Every operation is run once to count its allocations; then again with the k-th allocation failing
// (alone, or it and all later ones), for every k.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "blocked.h"
#include <BlasBooster/Core/BlockSizeGenerator.h>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
using namespace bb;

// ------------------------------------------------------------------ fault injection
namespace oom {
extern bool armed, persistent, fired;
extern long count, fail_at, live;
void step();
}
#if MC_PART == 0
namespace oom {
bool armed = false, persistent = false, fired = false;
long count = 0, fail_at = -1, live = 0;
void step()
{
    if (!armed) return;
    long n = count++;
    if (fail_at >= 0 && (n == fail_at || (persistent && n > fail_at))) { fired = true; throw std::bad_alloc(); }
}
static void* get(size_t n) { step(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
static void* get_nothrow(size_t n) noexcept { try { return get(n); } catch (std::bad_alloc const&) { return nullptr; } }
static void put(void* p) noexcept { if (!p) return; --live; std::free(p); }
}
void* operator new(size_t n) { return oom::get(n); }
void* operator new[](size_t n) { return oom::get(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return oom::get_nothrow(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return oom::get_nothrow(n); }
void operator delete(void* p) noexcept { oom::put(p); }
void operator delete[](void* p) noexcept { oom::put(p); }
void operator delete(void* p, size_t) noexcept { oom::put(p); }
void operator delete[](void* p, size_t) noexcept { oom::put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { oom::put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { oom::put(p); }
#endif

namespace {

/// One operation on its own fresh operands.
struct Job {
    std::function<void()> op;                      // the operation, memory may run out in it
    std::function<void(mc::Ctx&)> done;            // it succeeded: the result is right
    std::function<void(mc::Ctx&)> untouched;       // operands which are no target are unchanged
    std::function<void(mc::Ctx&)> failed;          // it failed: the target is consistent
    std::function<void(mc::Ctx&, int)> reuse;      // the target can be assigned (0), resized (1), moved to (2), swapped (3)
    bool again = true;                             // the operation can be repeated once memory is back
    bool any = false;                              // other exceptions may be reported as well
};
typedef std::function<Job()> Maker;

void explore(mc::Ctx& ctx, std::string const& tag, Maker const& make_job)
{
    ctx.note(tag);
    blaze::verif::before_allocation() = &oom::step;
    long n = 0;
    {
        Job j = make_job();
        oom::count = 0; oom::fail_at = -1; oom::persistent = false; oom::fired = false; oom::armed = true;
        try { j.op(); } catch (...) { oom::armed = false; throw; }
        oom::armed = false; n = oom::count;
        if (j.done) j.done(ctx);
        if (j.untouched) j.untouched(ctx);
        for (int how = 0; how < 4; ++how) if (j.reuse) j.reuse(ctx, how);
    }
    if (n == 0) { ctx.outcome("no allocation"); return; }
    int k = ctx.range(0, int(n) - 1, "failing allocation");
    bool persistent = ctx.flag("for good");
    int how = ctx.choose(5, "afterwards");
    std::string where = "allocation " + std::to_string(k) + " of " + std::to_string(n) + (persistent ? " and all later ones fail: " : " fails: ");
    std::string wrong;
    long elements = bb::live(), blocks = oom::live;
    bool thrown = false;
    {
        Job j = make_job();
        oom::count = 0; oom::fail_at = k; oom::persistent = persistent; oom::fired = false; oom::armed = true;
        int what = 0;
        try { j.op(); }
        catch (std::bad_alloc const&) { oom::armed = false; what = 1; }
        catch (std::exception const& e) { oom::armed = false; what = 2; wrong = e.what(); }
        oom::armed = false;
        thrown = what != 0;
        CHECK(oom::fired || !what, "exception:" + tag, "exception although there was memory");
        CHECK(what != 2 || j.any, "exception:" + tag, where + "reported as '" + wrong + "'");
        if (!thrown && j.done) j.done(ctx);
        if (j.untouched) j.untouched(ctx);
        if (thrown && j.failed) j.failed(ctx);
        if (thrown && how == 4 && j.again) { j.op(); if (j.done) j.done(ctx); if (j.untouched) j.untouched(ctx); }
        if (thrown && how < 4 && j.reuse) j.reuse(ctx, how);
    }
    std::string().swap(wrong);
    CHECK(bb::live() == elements, "element memory:" + tag, where + std::to_string(bb::live() - elements) + " arrays are lost");
    CHECK(oom::live == blocks, "memory:" + tag, where + std::to_string(oom::live - blocks) + " blocks are lost");
    ctx.outcome(thrown ? "reported" : "completed without the memory");
    ctx.state(mc::Hash()(tag)(k)(persistent)(how));
}

// ------------------------------------------------------------------ building blocks

template <class M> struct Make;
template <class T, class P> struct Make<Matrix<Dense, T, P>> { static Matrix<Dense, T, P> of(Ref const& a) { return dense<T, P>(a); } };
template <class T, class P> struct Make<Matrix<Sparse, T, P>> { static Matrix<Sparse, T, P> of(Ref const& a) { return sparse<T, P>(a); } };
template <> struct Make<Z> { static Z of(Ref const& a) { return Z(a.r, a.c); } };
template <> struct Make<MSS> { static MSS of(Ref const& a) { return *cast<MSS>(dynamic(4, a)); } };
template <> struct Make<MSD> { static MSD of(Ref const& a) { return *cast<MSD>(dynamic(5, a)); } };
template <class M> Ref value_of(Ref const& a) { if (std::is_same<M, Z>::value) return Ref(a.r, a.c); return a; }

template <class M> void same(mc::Ctx& ctx, M const& m, Ref const& a, std::string const& tag, char const* who)
{
    CHECK(m.getNbRows() == a.r && m.getNbColumns() == a.c && m.getSize() == a.r * a.c && bb::ref(m) == a, std::string(who) + ":" + tag, std::string(who) + " is " + str(bb::ref(m)) + " instead of " + str(a));
}
void same(mc::Ctx& ctx, DynamicMatrix const& m, Ref const& a, std::string const& tag, char const* who)
{
    CHECK(bool(m) && bb::ref(m) == a, std::string(who) + ":" + tag, std::string(who) + " is " + (m ? str(bb::ref(m)) : std::string("missing")) + " instead of " + str(a));
}

/// a failed target still has as much memory as its dimensions need
template <class M> void consistent(mc::Ctx& ctx, M const& m, std::string const& tag)
{
    CHECK(m.getSize() == m.getNbRows() * m.getNbColumns(), "dimensions of the target:" + tag, std::to_string(m.getSize()));
    if constexpr (!std::is_same<M, Z>::value && !std::is_same<M, MSS>::value && !std::is_same<M, MSD>::value) {
        if constexpr (std::is_same<typename M::matrix_type, Sparse>::value) {
            CHECK(m.endKey() - m.beginKey() == m.end() - m.begin(), "memory of the target:" + tag, "keys and values are different in number");
            CHECK(size_t(m.endOffset() - m.beginOffset()) == m.getMinorDimension() + 1 || (m.getSize() == 0 && m.endOffset() == m.beginOffset()), "memory of the target:" + tag, "offsets do not fit the dimensions");
        } else
            CHECK(size_t(m.end() - m.begin()) == m.getSize(), "memory of the target:" + tag, "has " + std::to_string(m.end() - m.begin()) + " elements instead of " + std::to_string(m.getSize()));
    }
}

/// a failed target is as good as a fresh matrix once it is assigned, resized or swapped
template <class M> struct Reuse { static void go(mc::Ctx& ctx, M& m, int how, std::string const& tag)
{
    Ref a = make(2, 2, [](size_t i, size_t j) { return double(1 + i + 2 * j); });
    M fresh(Make<M>::of(a));
    if (how == 0) m = static_cast<M const&>(fresh);
    else if (how == 1) { if constexpr (!std::is_same<M, Z>::value) { m.resize(2, 2, 4); fill(m, a); } else m.resize(2, 2); }
    else if (how == 2) m = std::move(fresh);
    else { using std::swap; swap(m, fresh); }
    same(ctx, m, value_of<M>(a), tag, "target used again");
    M copy(m);
    same(ctx, copy, value_of<M>(a), tag, "copy of the target used again");
}
template <class X> static void fill(X& m, Ref const& a) {
    if constexpr (std::is_same<typename X::matrix_type, Sparse>::value) {
        for (size_t o = 0; o <= 2; ++o) m.beginOffset()[o] = 2 * o;
        bool cm = std::is_same<typename X::dimension, Dimension<VariableSize, ColumnMajor>>::value;
        for (size_t e = 0; e < 4; ++e) { m.beginKey()[e] = e % 2; m.begin()[e] = cm ? a(e % 2, e / 2) : a(e / 2, e % 2); }
    } else for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) m(i, j) = a(i, j);
} };
template <class T, class P> struct Reuse<Matrix<Dense, T, P>> { static void go(mc::Ctx& ctx, Matrix<Dense, T, P>& m, int how, std::string const& tag)
{
    typedef Matrix<Dense, T, P> M;
    Ref a = make(2, 2, [](size_t i, size_t j) { return double(1 + i + 2 * j); });
    M fresh(Make<M>::of(a));
    if (how == 0) m = static_cast<M const&>(fresh);
    else if (how == 1) { m.resize(2, 2); for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) m(i, j) = T(a(i, j)); }
    else if (how == 2) m = std::move(fresh);
    else { using std::swap; swap(m, fresh); }
    same(ctx, m, a, tag, "target used again");
    M copy(m);
    same(ctx, copy, a, tag, "copy of the target used again");
} };

Ref const& operand(int k)
{
    static const std::vector<Ref> x{ structured(2, 3, 0), structured(3, 2, 3), structured(1, 1, 0), Ref(2, 2), Ref(0, 2), Ref(2, 0), structured(4, 4, 5) };
    return x[k];
}
const int nb_operands = 7;

/// the operation makes a new matrix
template <class M, class F> Maker makes(F f, Ref const& want, std::string const& tag)
{
    return [=]() {
        auto out = std::make_shared<std::unique_ptr<M>>();
        Job j;
        j.op = [=]() { out->reset(new M(f())); };
        j.done = [=](mc::Ctx& ctx) { same(ctx, **out, want, tag, "result"); };
        j.untouched = [=](mc::Ctx& ctx) { (void)ctx; };
        return j; };
}

/// the operation makes a new matrix from another one
template <class M, class X, class F> Maker from(Ref const& a, F f, Ref const& want, std::string const& tag)
{
    return [=]() {
        auto in = std::make_shared<X>(Make<X>::of(a));
        auto out = std::make_shared<std::unique_ptr<M>>();
        Job j;
        j.op = [=]() { out->reset(new M(f(static_cast<X const&>(*in)))); };
        j.done = [=](mc::Ctx& ctx) { same(ctx, **out, want, tag, "result"); };
        j.untouched = [=](mc::Ctx& ctx) { same(ctx, *in, value_of<X>(a), tag, "operand"); };
        return j; };
}

/// the operation makes a new matrix from two others
template <class M, class X, class Y, class F> Maker from2(Ref const& a, Ref const& b, F f, Ref const& want, std::string const& tag)
{
    return [=]() {
        auto in = std::make_shared<X>(Make<X>::of(a)); auto in2 = std::make_shared<Y>(Make<Y>::of(b));
        auto out = std::make_shared<std::unique_ptr<M>>();
        Job j;
        j.op = [=]() { out->reset(new M(f(static_cast<X const&>(*in), static_cast<Y const&>(*in2)))); };
        j.done = [=](mc::Ctx& ctx) { same(ctx, **out, want, tag, "result"); };
        j.untouched = [=](mc::Ctx& ctx) { same(ctx, *in, value_of<X>(a), tag, "left operand"); same(ctx, *in2, value_of<Y>(b), tag, "right operand"); };
        return j; };
}

/// the operation changes a matrix with the help of another one
template <class M, class X, class F> Maker changes(Ref const& before, Ref const& a, F f, Ref const& want, std::string const& tag, bool again = true)
{
    return [=]() {
        auto m = std::make_shared<M>(Make<M>::of(before));
        auto in = std::make_shared<X>(Make<X>::of(a));
        Job j; j.again = again;
        j.op = [=]() { f(*m, static_cast<X const&>(*in)); };
        j.done = [=](mc::Ctx& ctx) { same(ctx, *m, want, tag, "result"); };
        j.untouched = [=](mc::Ctx& ctx) { same(ctx, *in, value_of<X>(a), tag, "operand"); };
        j.failed = [=](mc::Ctx& ctx) { consistent(ctx, *m, tag); };
        j.reuse = [=](mc::Ctx& ctx, int how) { Reuse<M>::go(ctx, *m, how, tag); };
        return j; };
}

// ------------------------------------------------------------------ one matrix: construction, copy, assignment, resize

template <class M> void one(mc::Ctx& ctx)
{
    std::string tag = kind<M>();
    int which = ctx.choose(8, "operation");
    Ref const& a = operand(ctx.choose(nb_operands, "operand"));
    Ref const& b = operand(which == 1 || which == 2 || which == 3 ? ctx.choose(nb_operands, "target") : 0);
    ctx.shard();
    Ref va = value_of<M>(a);
    switch (which) {
    case 0: explore(ctx, "copy:" + tag, from<M, M>(a, [](M const& x) { return M(x); }, va, "copy:" + tag)); break;
    case 1: explore(ctx, "assignment:" + tag, changes<M, M>(b, a, [](M& m, M const& x) { m = x; }, va, "assignment:" + tag)); break;
    case 2: explore(ctx, "swap:" + tag, changes<M, M>(b, a, [](M& m, M const& x) { M c(x); using std::swap; swap(m, c); }, va, "swap:" + tag)); break;
    case 3:
        if constexpr (std::is_same<M, Z>::value) throw mc::Prune();
        else explore(ctx, "resize:" + tag, changes<M, M>(b, a, [&a](M& m, M const& x) { m.resize(a.r, a.c); m = x; }, va, "resize:" + tag));
        break;
    case 4: explore(ctx, "construction:" + tag, makes<M>([a]() { return Make<M>::of(a); }, va, "construction:" + tag)); break;
    case 5:
        if constexpr (std::is_same<M, Z>::value) throw mc::Prune();
        else explore(ctx, "transpose:" + tag, from<M, M>(a, [](M const& x) { return transpose(x); }, a.t(), "transpose:" + tag));
        break;
    case 6: {
        // queries: the value is right as soon as memory is back
        if constexpr (std::is_same<M, Z>::value) throw mc::Prune();
        else {
            double norm = 0, sig = 0; for (double x : a.v) { norm += x * x; sig += x != 0; }
            explore(ctx, "queries:" + tag, [=]() {
                auto m = std::make_shared<M>(Make<M>::of(a));
                Job j; std::string t = tag;
                j.op = [=]() { (void)m->getNorm(); (void)m->getOccupation(AbsoluteValueRangeChecker<double>(0.0)); (void)m->getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(2.0)); };
                j.untouched = [=](mc::Ctx& ctx) { same(ctx, *m, a, "queries:" + t, "operand");
                    CHECK(std::abs(m->getNorm() - std::sqrt(norm)) < 1e-9, "norm:" + t, "norm is " + std::to_string(m->getNorm()));
                    CHECK(double(m->getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(0.0))) == sig, "occupation:" + t, "significant elements " + std::to_string(m->getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(0.0)))); };
                return j; });
        }
        break; }
    case 7: explore(ctx, "move:" + tag, makes<M>([a]() { M m(Make<M>::of(a)); M n(std::move(m)); M o; o = std::move(n); return o; }, va, "move:" + tag)); break;
    }
}

#define PART(n) (MC_PART == n)
#if PART(0)
mc::Register o1("one:" + kind<D<double>>(), one<D<double>>, true), o2("one:" + kind<D<float, RM>>(), one<D<float, RM>>, true), o3("one:" + kind<Z>(), one<Z>, true);
#elif PART(1)
mc::Register o4("one:" + kind<S<double>>(), one<S<double>>, true), o5("one:" + kind<S<float, RM>>(), one<S<float, RM>>, true);
#endif

// ------------------------------------------------------------------ storages

#if PART(0)
template <class St> void storage(mc::Ctx& ctx, std::string const& tag, bool fixed)
{
    int which = ctx.choose(4, "operation"), n = fixed ? 3 : ctx.choose(4, "size"), m = fixed ? 3 : ctx.choose(4, "old size"), ext = ctx.choose(3, "external memory");
    if (fixed && which == 2) throw mc::Prune();
    if (which == 2 && (ext & 1)) throw mc::Prune();   // external memory cannot be resized
    ctx.shard();
    static const char* const names[] = { "copy", "assignment", "resize", "move" };
    std::string t = std::string(names[which]) + ":" + tag;
    explore(ctx, t, [=]() {
        struct W { double mem[4]; std::unique_ptr<St> s, o; W() { for (int i = 0; i < 4; ++i) mem[i] = 70 + i; } };
        auto w = std::make_shared<W>();
        // the target (ext & 1: on external memory), the other one (ext & 2)
        auto mk = [&](int k, bool e) { St* s; if (e) s = new St(w->mem, size_t(k)); else { s = new St(size_t(k)); for (int i = 0; i < k; ++i) s->begin()[i] = 10 + i; } return s; };
        w->s.reset(mk(m, ext & 1)); w->o.reset(mk(n, ext & 2));
        Job j;
        if (which == 0) j.op = [=]() { w->s.reset(); w->s.reset(new St(static_cast<St const&>(*w->o))); };
        if (which == 1) j.op = [=]() { *w->s = static_cast<St const&>(*w->o); };
        if (which == 2) j.op = [=]() { if constexpr (!std::is_same<St, Storage<double, false, true, 3>>::value) w->s->resize(n); };
        if (which == 3) j.op = [=]() { St x(static_cast<St const&>(*w->o)); St y(std::move(x)); *w->s = std::move(y); };
        j.done = [=](mc::Ctx& ctx) { CHECK(w->s->size() == size_t(n), "size:" + t, std::to_string(w->s->size())); if (which != 2) for (int i = 0; i < n; ++i) CHECK(w->s->begin()[i] == (ext & 2 ? 70 : 10) + i, "contents:" + t, std::to_string(w->s->begin()[i])); };
        j.untouched = [=](mc::Ctx& ctx) { CHECK(w->o->size() == size_t(n), "operand:" + t, std::to_string(w->o->size())); for (int i = 0; i < n; ++i) CHECK(w->o->begin()[i] == (ext & 2 ? 70 : 10) + i, "operand:" + t, std::to_string(w->o->begin()[i])); };
        j.reuse = [=](mc::Ctx& ctx, int how) {
            if (!w->s) return;
            St fresh(3); for (int i = 0; i < 3; ++i) fresh.begin()[i] = 30 + i;
            if (how == 0) *w->s = static_cast<St const&>(fresh);
            else if (how == 2) *w->s = std::move(fresh);
            else { using std::swap; swap(*w->s, fresh); }
            CHECK(w->s->size() == 3, "size used again:" + t, std::to_string(w->s->size()));
            for (int i = 0; i < 3; ++i) CHECK(w->s->begin()[i] == 30 + i, "contents used again:" + t, std::to_string(w->s->begin()[i]));
        };
        return j; });
}
SCENARIO_SHARDED(storage_flexible) { storage<Storage<double, false, false, 0>>(ctx, "flexible storage", false); }
SCENARIO_SHARDED(storage_fixed) { storage<Storage<double, false, true, 3>>(ctx, "fixed storage", true); }
#endif

// ------------------------------------------------------------------ conversions

#if PART(1)
template <class M, class X> bool convert(mc::Ctx& ctx, Ref const& a)
{
    std::string tag = kind<X>() + " to " + kind<M>();
    explore(ctx, tag, from<M, X>(a, [](X const& x) { return M(x); }, value_of<X>(a), tag));
    return true;
}
template <class M, class X> bool convert_checked(mc::Ctx& ctx, Ref const& a)
{
    std::string tag = kind<X>() + " to " + kind<M>() + " with checker";
    Ref w = a; for (double& x : w.v) if (std::abs(x) <= 4.0) x = 0.0;
    explore(ctx, tag, from<M, X>(a, [](X const& x) { return M(x, AbsoluteValueRangeChecker<double>(4.0)); }, w, tag));
    return true;
}
SCENARIO_SHARDED(conversions)
{
    Ref const& a = operand(ctx.choose(nb_operands, "operand"));
    int which = ctx.choose(24, "conversion");
    ctx.shard();
    switch (which) {
    case 0: convert<D<double>, D<float>>(ctx, a); break;
    case 1: convert<D<float>, D<double>>(ctx, a); break;
    case 2: convert<D<double>, D<double, RM>>(ctx, a); break;
    case 3: convert<D<float, RM>, D<float>>(ctx, a); break;
    case 4: convert<D<double>, S<double>>(ctx, a); break;
    case 5: convert<D<float, RM>, S<float>>(ctx, a); break;
    case 6: convert<D<double>, Z>(ctx, a); break;
    case 7: convert<D<double>, MSS>(ctx, a); break;
    case 8: convert<D<double>, MSD>(ctx, a); break;
    case 9: convert<S<double>, D<double>>(ctx, a); break;
    case 10: convert<S<double, RM>, D<double>>(ctx, a); break;
    case 11: convert<S<double>, S<float>>(ctx, a); break;
    case 12: convert<S<float, RM>, S<float>>(ctx, a); break;
    case 13: convert<S<double>, S<double, RM>>(ctx, a); break;
    case 14: convert_checked<D<double>, D<double>>(ctx, a); break;
    case 15: convert_checked<S<double>, D<double>>(ctx, a); break;
    case 16: convert_checked<S<double>, S<double>>(ctx, a); break;
    case 17: case 18: case 19: case 20: case 21: case 22: case 23: {
        int t = which - 17; Ref v = t == 0 ? Ref(a.r, a.c) : a; std::string tag = std::string("dynamic ") + dyn_names[t] + " to dense";
        explore(ctx, tag, [=]() {
            auto in = std::make_shared<DynamicMatrix>(dynamic(t, a)); auto out = std::make_shared<std::unique_ptr<D<double>>>();
            Job j;
            j.op = [=]() { out->reset(new D<double>(*in)); };
            j.done = [=](mc::Ctx& ctx) { same(ctx, **out, v, tag, "result"); };
            j.untouched = [=](mc::Ctx& ctx) { same(ctx, *in, v, tag, "operand"); };
            return j; });
        break; }
    }
}
SCENARIO_SHARDED(submatrix)
{
    Ref const& a = operand(ctx.choose(nb_operands, "parent"));
    if (a.r < 2 || a.c < 2) throw mc::Prune();
    ctx.shard();
    Ref w = window(a, 1, 1, a.r - 1, a.c - 1);
    explore(ctx, "submatrix to dense", from<D<double>, D<double>>(a, [&](D<double> const& x) { Matrix<Dense, double, SubCM> v(x, a.r - 1, a.c - 1, 1, 1); return D<double>(v); }, w, "submatrix to dense"));
}
#endif

// ------------------------------------------------------------------ sums, differences, products

#if PART(2)
template <class X, class Y> void pair(mc::Ctx& ctx)
{
    Ref const& a = operand(ctx.choose(nb_operands, "operand"));
    int op = ctx.choose(5, "operation");
    ctx.shard();
    Ref b = structured(a.r, a.c, 5, wother), va = value_of<X>(a), vb = value_of<Y>(b);
    typedef decltype(std::declval<X>() + std::declval<Y>()) Sum;
    static const char* const names[] = { "+", "-", "+=", "-=", "*" };
    std::string tag = kind<X>() + " " + names[op] + " " + kind<Y>();
    switch (op) {
    case 0: explore(ctx, tag, from2<Sum, X, Y>(a, b, [](X const& x, Y const& y) { return x + y; }, add(va, vb), tag)); break;
    case 1: explore(ctx, tag, from2<Sum, X, Y>(a, b, [](X const& x, Y const& y) { return x - y; }, add(va, vb, -1.0), tag)); break;
    case 2: case 3:
        if constexpr (std::is_same<X, D<double>>::value || std::is_same<X, D<float>>::value)
            explore(ctx, tag, changes<X, Y>(a, b, [op](X& x, Y const& y) { if (op == 2) x += y; else x -= y; }, add(va, vb, op == 2 ? 1.0 : -1.0), tag, false));
        else throw mc::Prune();
        break;
    case 4: {
        Ref bt = structured(a.c, a.r, 3, wother), vbt = value_of<Y>(bt);
        typedef decltype((std::declval<X>() * std::declval<Y>()).template execute<Native>()) Product;
        explore(ctx, tag, from2<Product, X, Y>(a, bt, [](X const& x, Y const& y) { return (x * y).template execute<Native>(); }, mul(va, vbt), tag));
        break; }
    }
}
template <class X> void pairs(std::vector<mc::Register>& r)
{
    auto def = [&](std::string const& y, mc::Body b) { r.push_back(mc::Register("pair:" + kind<X>() + "," + y, b, true)); };
    def("Dense<double>", pair<X, D<double>>); def("Dense<float>", pair<X, D<float>>); def("Sparse<double>", pair<X, S<double>>); def("Zero", pair<X, Z>);
    def("Multi<SD,SF>", pair<X, MSS>); def("Multi<SD,DF>", pair<X, MSD>);
}
struct Pairs { std::vector<mc::Register> r; Pairs() { pairs<D<double>>(r); pairs<D<float>>(r); pairs<S<double>>(r); pairs<MSS>(r); } } all_pairs;

SCENARIO_SHARDED(mixed_orientation)
{
    Ref const& a = operand(ctx.choose(nb_operands, "operand"));
    int op = ctx.choose(3, "operands");
    ctx.shard();
    Ref b = structured(a.c, a.r, 3, wother);
    if (op == 0) explore(ctx, "row-major * column-major", from2<D<double>, D<double, RM>, D<double>>(a, b, [](D<double, RM> const& x, D<double> const& y) { return D<double>((x * y).template execute<Native>()); }, mul(a, b), "row-major * column-major"));
    if (op == 1) explore(ctx, "column-major * row-major", from2<D<double>, D<double>, D<double, RM>>(a, b, [](D<double> const& x, D<double, RM> const& y) { return D<double>((x * y).template execute<Native>()); }, mul(a, b), "column-major * row-major"));
    if (op == 2) explore(ctx, "dense(A * B)", from2<D<double>, D<double>, D<double>>(a, b, [](D<double> const& x, D<double> const& y) { return D<double>(x * y); }, mul(a, b), "dense(A * B)"));
}
#endif

#if PART(3)
SCENARIO_SHARDED(dynamic_pairs)
{
    Ref const& a = operand(ctx.choose(nb_operands, "operand"));
    int x = ctx.choose(7, "left"), y = ctx.choose(7, "right"), op = ctx.choose(5, "operation");
    ctx.shard();
    Ref b = op == 4 ? structured(a.c, a.r, 3, wother) : structured(a.r, a.c, 5, wother);
    Ref va = x ? a : Ref(a.r, a.c), vb = y ? b : Ref(b.r, b.c);
    static const char* const names[] = { "+", "-", "+=", "-=", "*" };
    std::string tag = std::string(dyn_names[x]) + " " + names[op] + " " + dyn_names[y] + " (dynamic)";
    Ref want = op == 4 ? mul(va, vb) : add(va, vb, op == 1 || op == 3 ? -1.0 : 1.0);
    auto run = [op](DynamicMatrix const& l, DynamicMatrix const& r) -> DynamicMatrix {
        switch (op) { case 0: return l + r; case 1: return l - r; case 2: return l += r; case 3: return l -= r; default: return (l * r).template execute<Native>(); } };
    // combinations which are rejected altogether are C07's
    try { DynamicMatrix l = dynamic(x, a), r = dynamic(y, b); run(l, r); } catch (std::runtime_error const&) { ctx.outcome("combination rejected"); return; }
    explore(ctx, tag, [=]() {
        auto l = std::make_shared<DynamicMatrix>(dynamic(x, a)), r = std::make_shared<DynamicMatrix>(dynamic(y, b)), out = std::make_shared<DynamicMatrix>();
        Job j; j.again = op != 2 && op != 3;
        j.op = [=]() { *out = run(*l, *r); };
        j.done = [=](mc::Ctx& ctx) { same(ctx, *out, want, tag, "result"); };
        j.untouched = [=](mc::Ctx& ctx) { if (op != 2 && op != 3) same(ctx, *l, va, tag, "left operand"); same(ctx, *r, vb, tag, "right operand"); };
        return j; });
}
#endif

// ------------------------------------------------------------------ automatic conversion, blocking, block sizes

#if PART(4)
Threshold threshold(int which)
{
    ThresholdSettings s;
    s.set_significanceThresholdDoublePrecision(1e-10).set_significanceThresholdSinglePrecision(1e-5);
    if (which == 1)
        s.set_occupationThresholdMatrixSparseFloatDoublePrecision(0.5).set_occupationThresholdMatrixSparseDoubleSinglePrecision(0.5).set_occupationThresholdMatrixSparseDoubleDoublePrecision(0.5)
         .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(0.5).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(0.75)
         .set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(0.5);
    return Threshold(s);
}
/// matrices for which each of the seven types is chosen
Ref sample(int t)
{
    switch (t) {
    case 0: return Ref(2, 2);
    case 1: return make(3, 3, [](size_t i, size_t j) { return i == j ? std::ldexp(1.0, -20) : 0.0; });
    case 2: return make(2, 3, [](size_t i, size_t j) { return std::ldexp(1.0 + i + 2 * j, -20); });
    case 3: return make(3, 3, [](size_t i, size_t j) { return i == j ? 4.0 : 0.0; });
    case 4: return make(3, 3, [](size_t i, size_t j) { return i == j ? 4.0 : i > j ? std::ldexp(1.0, -20) : 0.0; });
    case 5: return make(3, 3, [](size_t i, size_t j) { return i == j ? 4.0 : std::ldexp(1.0, -20); });
    default: return make(2, 3, [](size_t i, size_t j) { return 1.0 + i + 2.0 * j; });
    }
}
SCENARIO_SHARDED(converter)
{
    int t = ctx.choose(7, "matrix");
    ctx.shard();
    Ref a = sample(t);
    Threshold thr = threshold(1);
    std::string tag = std::string("converter: ") + dyn_names[t];
    explore(ctx, tag, [=]() {
        auto in = std::make_shared<D<double>>(dense<double>(a)); auto out = std::make_shared<DynamicMatrix>();
        Job j;
        j.op = [=]() { *out = MatrixConverter()(*in, thr); };
        j.done = [=](mc::Ctx& ctx) { CHECK(int((*out)->getTypeIndex()) == t, "type:" + tag, dyn_names[(*out)->getTypeIndex()]); same(ctx, *out, a, tag, "result"); };
        j.untouched = [=](mc::Ctx& ctx) { same(ctx, *in, a, tag, "operand"); };
        return j; });
}
SCENARIO_SHARDED(blocking)
{
    static const std::vector<Part> parts{ { 3 }, { 1, 2 }, { 1, 1, 1 } };
    Part const& rp = ctx.pick(parts); Part const& cp = ctx.pick(parts);
    int t = ctx.choose(8, "matrix"), op = ctx.choose(6, "operation");
    ctx.shard();
    Ref a = t < 7 ? sample(t) : make(3, 3, [](size_t i, size_t j) { return i == 0 && j == 0 ? 4.0 : j == 0 ? 0.0 : std::ldexp(1.0 + j, i ? -20 : 0); });
    if (a.r != 3 || a.c != 3) throw mc::Prune();
    Threshold thr = threshold(1);
    static const char* const names[] = { "blocking", "unblocking", "copy of blocked", "assignment of blocked", "blocked product", "norm of blocked" };
    std::string tag = names[op];
    explore(ctx, tag, [=]() {
        struct W { D<double> m; BlockedDenseMatrix b, o; std::unique_ptr<D<double>> d; double norm = 0; };
        auto w = std::make_shared<W>();
        w->m = dense<double>(a);
        if (op) w->b = BlockedMatrixGenerator()(w->m, rp, cp, thr);
        if (op == 3) w->o = BlockedMatrixGenerator()(w->m, Part{ 2, 1 }, Part{ 2, 1 }, thr);
        BlockedDenseMatrix right;
        if (op == 4) w->o = BlockedMatrixGenerator()(w->m, cp, rp, thr);
        Job j; Ref want = op == 4 ? mul(a, a) : a;
        j.op = [=]() {
            if (op == 0) w->b = BlockedMatrixGenerator()(w->m, rp, cp, thr);
            if (op == 1) w->d.reset(new D<double>(w->b));
            if (op == 2) { BlockedDenseMatrix c(static_cast<BlockedDenseMatrix const&>(w->b)); w->o = std::move(c); }
            if (op == 3) w->o = static_cast<BlockedDenseMatrix const&>(w->b);
            if (op == 4) { auto c = (w->b * w->o).template execute<Native>(); w->d.reset(new D<double>(c)); }
            if (op == 5) w->norm = w->b.getNorm();
        };
        j.done = [=](mc::Ctx& ctx) {
            if (op == 0) same(ctx, D<double>(w->b), a, tag, "result");
            if (op == 1) same(ctx, *w->d, a, tag, "result");
            if (op == 2 || op == 3) same(ctx, D<double>(w->o), a, tag, "result");
            if (op == 4) for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) CHECK(std::abs((*w->d)(i, k) - want(i, k)) <= 1e-9, "result:" + tag, std::to_string((*w->d)(i, k)));
        };
        j.untouched = [=](mc::Ctx& ctx) {
            same(ctx, w->m, a, tag, "operand");
            if (op) { CHECK(w->b.getNbRows() == rp.size() && w->b.getNbColumns() == cp.size() && w->b.getUnblockedRows() == 3 && w->b.getUnblockedColumns() == 3, "blocks:" + tag, "dimensions"); same(ctx, D<double>(w->b), a, tag, "blocked operand"); }
            if (op == 4) same(ctx, D<double>(w->o), a, tag, "right operand");
        };
        j.reuse = [=](mc::Ctx& ctx, int how) {
            BlockedDenseMatrix& target = op == 0 ? w->b : w->o;
            if (op != 0 && op != 2 && op != 3) return;
            BlockedDenseMatrix fresh = BlockedMatrixGenerator()(w->m, rp, cp, thr);
            if (how == 0) target = static_cast<BlockedDenseMatrix const&>(fresh);
            else if (how == 1) { target.resize(1, 1, 3, 3); target(0, 0) = DynamicMatrix(new D<double>(w->m)); }
            else if (how == 2) target = std::move(fresh);
            else swap(target, fresh);
            same(ctx, D<double>(target), a, tag, "target used again");
        };
        return j; });
}
SCENARIO_SHARDED(block_sizes)
{
    int n = ctx.range(1, 5, "rows"), m = ctx.range(1, 5, "columns"), op = ctx.choose(2, "operation");
    ctx.shard();
    Ref a = structured(n, m, 5), b = structured(m, n, 3);
    std::string tag = op ? "block sizes of a product" : "block sizes";
    auto want = [=](D<double> const& x, D<double> const& y) { if (op) return BlockSizeGenerator(1, 2).matrix_matrix_mult(x, y); auto t = BlockSizeGenerator(1, 2)(x); return std::make_tuple(std::get<0>(t), std::get<1>(t), std::vector<size_t>()); };
    auto good = want(dense<double>(a), dense<double>(b));
    explore(ctx, tag, [=]() {
        struct W { D<double> x, y; decltype(good) out; };
        auto w = std::make_shared<W>();
        w->x = dense<double>(a); w->y = dense<double>(b);
        Job j;
        j.op = [=]() { w->out = want(w->x, w->y); };
        j.done = [=](mc::Ctx& ctx) { CHECK(w->out == good, "result:" + tag, "block sizes differ"); };
        j.untouched = [=](mc::Ctx& ctx) { same(ctx, w->x, a, tag, "left operand"); same(ctx, w->y, b, tag, "right operand"); };
        return j; });
}
template <class M> void archive(mc::Ctx& ctx, std::string const& tag)
{
    Ref const& a = operand(ctx.choose(nb_operands, "operand")); Ref const& b = operand(ctx.choose(nb_operands, "target"));
    ctx.shard();
    std::stringstream o; { boost::archive::binary_oarchive ar(o); M m(Make<M>::of(a)); ar << m; }
    std::string text = o.str();
    explore(ctx, tag, [=]() {
        struct W { M m; std::stringstream s; W(Ref const& b) : m(Make<M>::of(b)) {} };
        auto w = std::make_shared<W>(b); w->s.str(text);
        Job j; j.any = true; j.again = false;
        j.op = [=]() { boost::archive::binary_iarchive ar(w->s); ar >> w->m; };
        j.done = [=](mc::Ctx& ctx) { same(ctx, w->m, a, tag, "result"); };
        j.failed = [=](mc::Ctx& ctx) { same(ctx, w->m, b, tag, "target"); };
        j.reuse = [=](mc::Ctx& ctx, int how) { Reuse<M>::go(ctx, w->m, how, tag); };
        return j; });
}
SCENARIO_SHARDED(archive_dense) { archive<D<double>>(ctx, "archive: Dense<double>"); }
SCENARIO_SHARDED(archive_dense_row) { archive<D<float, RM>>(ctx, "archive: Dense<float,RowMajor>"); }
#endif

} // namespace
