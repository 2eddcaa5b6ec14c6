// C25: dispatching over a type list reaches exactly the first matching type.
#define MC_MAIN
#include "bb.h"
#include <BlasBooster/Utilities/TypeChecker.h>
#include <BlasBooster/Utilities/exec_if.h>
#include <BlasBooster/Utilities/exec_if_2dim.h>
#include <BlasBooster/Utilities/exec_dyn.h>
#include <BlasBooster/Utilities/exec_dyn_2dim.h>
using namespace bb;

namespace {

template <int I> struct N { static const int number = I; static const size_t typeIndex_ = size_t(I); };
template <int... I> using List = TypeList<N<I>...>;

struct Log { std::vector<int> asked[2], reached; };
/// condition of arbitrary truth values
struct Condition { unsigned bits; Log* log; int which; template <int I> bool operator()(N<I>*) const { log->asked[which].push_back(I); return bits >> I & 1; } };
template <class R> struct Visit { typedef R result_type; Log* log;
    template <int I> R operator()(N<I>*) const { log->reached.push_back(I); return R(100 + I); }
    template <int I, int J> R operator()(N<I>*, N<J>*) const { log->reached.push_back(I); log->reached.push_back(J); return R(100 + 10 * I + J); } };
template <> struct Visit<void> { typedef void result_type; Log* log;
    template <int I> void operator()(N<I>*) const { log->reached.push_back(I); }
    template <int I, int J> void operator()(N<I>*, N<J>*) const { log->reached.push_back(I); log->reached.push_back(J); } };

template <int... I> struct Static
{
    static int first(unsigned bits) { for (int i : { I... }) if (bits >> i & 1) return i; return -1; }
    static std::string text(unsigned bits) { std::string s = "list"; for (int i : { I... }) s += " " + std::to_string(i); s += ", true for"; for (int i = 0; i < 7; ++i) if (bits >> i & 1) s += " " + std::to_string(i); return s; }
    template <class R> static void one(mc::Ctx& ctx, unsigned bits)
    {
        Log log; bool thrown = false; double r = 0; int e = first(bits);
        Condition c{ bits, &log, 0 }; Visit<R> v{ &log };
        try { if constexpr (std::is_void<R>::value) exec_if<List<I...>>(c, v); else r = double(exec_if<List<I...>>(c, v)); } catch (std::exception const&) { thrown = true; }
        CHECK(thrown == (e < 0), "failure:exec_if", text(bits) + (thrown ? ": failure though a type matches" : ": no failure though no type matches"));
        CHECK(log.reached == (e < 0 ? std::vector<int>() : std::vector<int>{ e }), "type:exec_if", text(bits) + ": " + (log.reached.empty() ? std::string("nothing") : std::to_string(log.reached[0])) + " reached");
        if (!std::is_void<R>::value && e >= 0) CHECK(r == 100 + e, "result:exec_if", text(bits));
        ctx.outcome("exec_if");
    }
    template <class R> static void two(mc::Ctx& ctx, unsigned b1, unsigned b2)
    {
        Log log; bool thrown = false; double r = 0; int e1 = first(b1), e2 = first(b2);
        Condition c1{ b1, &log, 0 }, c2{ b2, &log, 1 }; Visit<R> v{ &log };
        try { if constexpr (std::is_void<R>::value) exec_if_2dim<List<I...>>(c1, c2, v); else r = double(exec_if_2dim<List<I...>>(c1, c2, v)); } catch (std::exception const&) { thrown = true; }
        bool none = e1 < 0 || e2 < 0;
        CHECK(thrown == none, "failure:exec_if_2dim", text(b1) + " and " + text(b2));
        CHECK(log.reached == (none ? std::vector<int>() : std::vector<int>{ e1, e2 }), "type:exec_if_2dim", text(b1) + " and " + text(b2) + ": " + (log.reached.size() < 2 ? std::string("nothing") : std::to_string(log.reached[0]) + "," + std::to_string(log.reached[1])) + " reached");
        if (!std::is_void<R>::value && !none) CHECK(r == 100 + 10 * e1 + e2, "result:exec_if_2dim", text(b1) + " and " + text(b2));
        ctx.outcome("exec_if_2dim");
    }
    static void run(mc::Ctx& ctx, int dims, int result, unsigned b1, unsigned b2)
    {
        if (dims == 1) switch (result) { case 0: one<void>(ctx, b1); break; case 1: one<int>(ctx, b1); break; case 2: one<double>(ctx, b1); break; default: one<size_t>(ctx, b1); }
        else switch (result) { case 0: two<void>(ctx, b1, b2); break; case 1: two<int>(ctx, b1, b2); break; case 2: two<double>(ctx, b1, b2); break; default: two<size_t>(ctx, b1, b2); }
        ctx.state(mc::Hash()(std::string(text(b1)))(dims)(result)(b2));
    }
    typedef List<I...> L;
    // position of every type, the type at every position
    template <int K> static void index(mc::Ctx& ctx)
    {
        int e = 0; for (int i : { I..., K }) { if (i == K) break; ++e; }
        CHECK((GetIndex<N<K>, L>::value == size_t(e)), "GetIndex", text(0) + ": " + std::to_string(K) + " found at " + std::to_string(GetIndex<N<K>, L>::value) + " instead of " + std::to_string(e));
    }
    template <size_t K> static void type(mc::Ctx& ctx)
    {
        if constexpr (K < sizeof...(I)) { const int v[] = { I... }; typedef typename GetType<K, L>::type T; CHECK(T::number == v[K], "GetType", text(0) + ": " + std::to_string(T::number) + " at " + std::to_string(K)); }
    }
    static void lookup(mc::Ctx& ctx)
    {
        CHECK(GetSize<L>::value == sizeof...(I), "GetSize", text(0) + " has size " + std::to_string(GetSize<L>::value));
        index<0>(ctx); index<1>(ctx); index<2>(ctx); index<3>(ctx); index<4>(ctx); index<5>(ctx); index<6>(ctx);
        type<0>(ctx); type<1>(ctx); type<2>(ctx); type<3>(ctx); type<4>(ctx); type<5>(ctx); type<6>(ctx);
        ctx.outcome("lookup");
    }
};
struct Entry { void (*run)(mc::Ctx&, int, int, unsigned, unsigned); void (*lookup)(mc::Ctx&); };
#define L(...) Entry{ Static<__VA_ARGS__>::run, Static<__VA_ARGS__>::lookup }
const std::vector<Entry> lists{ L(0), L(3), L(0, 1), L(1, 0), L(2, 2), L(0, 1, 2), L(2, 0, 1), L(1, 2, 1), L(0, 1, 2, 3), L(3, 2, 1, 0), L(1, 3, 1, 0), L(0, 1, 2, 3, 4), L(4, 1, 3, 0, 2), L(0, 1, 2, 3, 4, 5), L(5, 3, 1, 4, 2, 0), L(0, 1, 2, 3, 4, 5, 6), L(6, 5, 4, 3, 2, 1, 0), L(2, 6, 0, 5, 1, 3, 4), L(0, 6, 0, 6, 3, 3, 1) };

SCENARIO_SHARDED(conditions)
{
    int l = ctx.choose(int(lists.size()), "list"), dims = ctx.choose(2, "dimensions") + 1;
    ctx.shard();
    unsigned b1 = ctx.choose(128, "condition"), b2 = dims == 2 ? ctx.choose(128, "second condition") : 0;
    lists[l].run(ctx, dims, ctx.choose(dims == 1 ? 4 : ctx.tier(2, 4), "result"), b1, b2);
}
SCENARIO(lookup) { lists[ctx.choose(int(lists.size()), "list")].lookup(ctx); }

/// conditions by type index
SCENARIO(indices)
{
    size_t i = ctx.choose(10, "index"), j = ctx.choose(10, "second index");
    Log log; Visit<int> v{ &log }; typedef List<0, 1, 2, 3, 4, 5, 6> A;
    bool thrown = false; int r = 0;
    try { r = exec_if_2dim<A>(TypeChecker(i), TypeChecker(j), v); } catch (std::exception const&) { thrown = true; }
    CHECK(thrown == (i > 6 || j > 6), "failure:TypeChecker", std::to_string(i) + "," + std::to_string(j));
    if (!thrown) CHECK(r == int(100 + 10 * i + j) && (log.reached == std::vector<int>{ int(i), int(j) }), "type:TypeChecker", std::to_string(i) + "," + std::to_string(j));
    log.reached.clear(); thrown = false;
    try { r = exec_if<A>(TypeChecker(i), v); } catch (std::exception const&) { thrown = true; }
    CHECK(thrown == (i > 6), "failure:TypeChecker", std::to_string(i));
    if (!thrown) CHECK(r == int(100 + i) && log.reached == std::vector<int>{ int(i) }, "type:TypeChecker", std::to_string(i));
    ctx.outcome("TypeChecker");
}

// dispatch by the type index of dynamic objects, over lists of several lengths
std::vector<std::string> calls;
template <class L, int I> struct Obj : MatrixBase { static const int number = I; const std::type_info& getTypeInfo() const override { return typeid(*this); } size_t getTypeIndex() const override { return size_t(I); } };
struct Tag7; struct Tag4; struct Tag1;
template <class A, class B> struct Pair { std::string operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { calls.push_back("pair"); return std::to_string(A::number) + "," + std::to_string(B::number) + (dynamic_cast<A*>(a.get()) && dynamic_cast<B*>(b.get()) ? "" : " with other objects"); } };
template <class X, class A, class B> struct PairX { std::string operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { calls.push_back("pair with " + std::to_string(X::number)); return std::to_string(X::number) + ":" + std::to_string(A::number) + "," + std::to_string(B::number) + (dynamic_cast<A*>(a.get()) && dynamic_cast<B*>(b.get()) ? "" : " with other objects"); } };
template <class A> struct Single { std::string operator()(DynamicMatrix const& a) const { calls.push_back("single"); return std::to_string(A::number) + (dynamic_cast<A*>(a.get()) ? "" : " with another object"); } };
template <class X, class A> struct SingleX { std::string operator()(DynamicMatrix const& a) const { calls.push_back("single with " + std::to_string(X::number)); return std::to_string(X::number) + ":" + std::to_string(A::number) + (dynamic_cast<A*>(a.get()) ? "" : " with another object"); } };
typedef std::function<std::string(DynamicMatrix const&, DynamicMatrix const&)> F2;
typedef std::function<std::string(DynamicMatrix const&)> F1;

template <class Tag, int... I> void objects(mc::Ctx& ctx)
{
    typedef TypeList<Obj<Tag, I>...> L;
    std::vector<DynamicMatrix> o{ DynamicMatrix(new Obj<Tag, I>)... };
    int i = ctx.choose(int(o.size()), "first"), j = ctx.choose(int(o.size()), "second");
    std::string one = std::to_string(i), two = one + "," + std::to_string(j);
    auto check = [&](std::string const& got, std::string const& expected, std::string const& call, char const* what) {
        CHECK(got == expected, std::string("type:") + what, got + " reached instead of " + expected + " in a list of " + std::to_string(o.size()));
        CHECK(calls == std::vector<std::string>{ call }, std::string("calls:") + what, std::to_string(calls.size()) + " calls");
        calls.clear();
    };
    calls.clear();
    check(exec_dyn<L, Single, TypeList<>, F1>(o[i]), one, "single", "exec_dyn");
    check(exec_dyn<L, SingleX, TypeList<N<5>>, F1>(o[i]), "5:" + one, "single with 5", "exec_dyn");
    check(exec_dyn_2dim<L, Pair, TypeList<>, F2>(o[i], o[j]), two, "pair", "exec_dyn_2dim");
    check(exec_dyn_2dim<L, PairX, TypeList<N<6>>, F2>(o[i], o[j]), "6:" + two, "pair with 6", "exec_dyn_2dim");
    check(exec_dyn_2dim<L, PairX, TypeList<N<4>>, F2>(o[j], o[i]), "4:" + std::to_string(j) + "," + one, "pair with 4", "exec_dyn_2dim");
    ctx.state(mc::Hash()(o.size())(i)(j));
    ctx.outcome("dynamic");
}
SCENARIO(dynamic_objects)
{
    switch (ctx.choose(4, "list")) { case 0: objects<Tag1, 0>(ctx); break; case 1: objects<Tag4, 0, 1>(ctx); break; case 2: objects<Tag4, 0, 1, 2, 3>(ctx); break; default: objects<Tag7, 0, 1, 2, 3, 4, 5, 6>(ctx); }
}

// the library's own list
template <class A> struct NameOf { std::string operator()(DynamicMatrix const& a) const { calls.push_back("name"); return std::string(typeid(A).name()) + (dynamic_cast<A*>(a.get()) ? "" : " with another object"); } };
template <class A, class B> struct NamesOf { std::string operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { calls.push_back("names"); return std::string(typeid(A).name()) + " and " + typeid(B).name() + (dynamic_cast<A*>(a.get()) && dynamic_cast<B*>(b.get()) ? "" : " with other objects"); } };
struct TypeName1 { typedef std::string result_type; template <class T> std::string operator()(T*) const { calls.push_back("if"); return typeid(T).name(); } };
SCENARIO(matrices)
{
    CHECK(GetSize<DynamicMatrixTypeList>::value == 7, "types", std::to_string(GetSize<DynamicMatrixTypeList>::value));
    int i = ctx.choose(7, "first"), j = ctx.choose(7, "second");
    DynamicMatrix a = dynamic(i, make(2, 2, code)), b = dynamic(j, make(2, 2, code));
    auto name = [](DynamicMatrix const& x) { MatrixBase const& m = *x; return std::string(typeid(m).name()); };
    CHECK(a->getTypeInfo() == typeid(*a), "getTypeInfo", name(a));
    CHECK((a->getTypeIndex() == b->getTypeIndex()) == (i == j) && a->getTypeIndex() < 7, "getTypeIndex", name(a) + ", " + name(b));
    calls.clear();
    std::string n = exec_dyn<DynamicMatrixTypeList, NameOf, TypeList<>, F1>(a);
    CHECK(n == name(a) && calls.size() == 1, "type:matrices", n + " instead of " + name(a));
    n = exec_dyn_2dim<DynamicMatrixTypeList, NamesOf, TypeList<>, F2>(a, b);
    CHECK(n == name(a) + " and " + name(b) && calls.size() == 2, "type:matrices", n + " instead of " + name(a) + " and " + name(b));
    n = exec_if<DynamicMatrixTypeList>(TypeChecker(a->getTypeIndex()), TypeName1());
    CHECK(n == name(a) && calls.size() == 3, "type:matrices", n + " instead of " + name(a));
    ctx.outcome("matrices");
}

} // namespace
