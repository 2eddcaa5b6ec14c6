// C15: checkers are strictly weakly ordered, equivalent only if they accept the same values, and cached counts are never mixed up.
#define MC_MAIN
#include "checkers.h"
using namespace bb;

namespace {

const double probes[] = { 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0 };
Ref const& content()
{
    // k+1 elements of value probes[k]: every interval has its own number of elements
    static const Ref a = [] { Ref x(9, 5); size_t p = 0; for (size_t k = 0; k < 9; ++k) for (size_t n = 0; n <= k; ++n) x.v[p++] = n % 2 ? -probes[k] : probes[k]; return x; }();
    return a;
}

struct Checker {
    std::string name;
    std::shared_ptr<ValueCheckerBase> ptr;
    std::function<bool(double)> accepts;
    std::function<size_t(D<double> const&)> count_dense; std::function<size_t(S<double> const&)> count_sparse; std::function<size_t(D<float> const&)> count_float;
    std::function<double(D<double> const&)> occupation;
};

template <class T, Bound B> void addone(std::vector<Checker>& v, T l, T u)
{
    if (!valid<T>(B, l, u)) return;
    typedef typename CheckerType<T, B>::type C;
    C c = CheckerType<T, B>::make(l, u);
    std::ostringstream n; n << tname<T>() << " " << bound_names[B] << " " << l; if (B != EN) n << ".." << u;
    for (auto const& x : v) if (x.name == n.str()) return;
    v.push_back({ n.str(), std::make_shared<C>(c), [c](double x) { return c(x); }, [c](D<double> const& m) { return m.getNbOfSignificantElements(c); },
        [c](S<double> const& m) { return m.getNbOfSignificantElements(c); }, [c](D<float> const& m) { return m.getNbOfSignificantElements(c); }, [c](D<double> const& m) { return m.getOccupation(c); } });
}
template <class T> void addall(std::vector<Checker>& v, std::vector<T> const& t)
{
    for (T l : t) for (T u : t) { addone<T, EN>(v, l, u); addone<T, EI>(v, l, u); addone<T, II>(v, l, u); addone<T, EE>(v, l, u); }
}
std::vector<Checker> const& all(bool thorough)
{
    static std::vector<Checker> v;
    if (v.empty()) {
        addall<double>(v, thorough ? std::vector<double>{ 0.0, -0.0, 0.25, 0.5, 1.0, 2.0, 3.0, std::numeric_limits<double>::infinity() } : std::vector<double>{ 0.0, 0.5, 1.0, 2.0 });
        addall<float>(v, thorough ? std::vector<float>{ 0.0f, 0.5f, 1.0f, 2.0f, 3.0f } : std::vector<float>{ 0.0f, 0.5f, 1.0f, 2.0f });
        addall<int>(v, { 0, 1, 2 });
    }
    return v;
}
bool same(Checker const& a, Checker const& b) { for (double x : probes) if (a.accepts(x) != b.accepts(x)) return false; return true; }
size_t expected(Checker const& c) { size_t n = 0; for (double x : content().v) n += c.accepts(x); return n; }

void order(mc::Ctx& ctx)
{
    auto const& v = all(ctx.thorough());
    Checker const& a = v[ctx.choose(int(v.size()), "a")];
    ctx.shard();
    ctx.note("order");
    ValueCheckerLess less;
    CHECK(!less(a.ptr, a.ptr), "irreflexive", a.name);
    for (auto const& b : v) {
        bool ab = less(a.ptr, b.ptr), ba = less(b.ptr, a.ptr);
        CHECK(!(ab && ba), "asymmetric", a.name + " and " + b.name);
        CHECK(ab == (*a.ptr < *b.ptr) && ba == (*b.ptr < *a.ptr), "operator<", a.name + " and " + b.name);
        if (!ab && !ba) CHECK(same(a, b), "equivalent", a.name + " and " + b.name + " are equivalent but accept different values");
        for (auto const& c : v) {
            bool bc = less(b.ptr, c.ptr), cb = less(c.ptr, b.ptr), ac = less(a.ptr, c.ptr), ca = less(c.ptr, a.ptr);
            if (ab && bc) CHECK(ac, "transitive", a.name + " < " + b.name + " < " + c.name);
            if (!ab && !ba && !bc && !cb) CHECK(!ac && !ca, "equivalence transitive", a.name + ", " + b.name + ", " + c.name);
        }
        ctx.state(mc::Hash()("order")(a.name)(b.name)(ab));
    }
    // equal checkers are equivalent: an own copy is found again
    ctx.outcome(a.name);
}
mc::Register r1("order", order, true);

// distinct checkers in a map: one entry each
void container(mc::Ctx& ctx)
{
    auto const& v = all(ctx.thorough());
    int shift = ctx.choose(int(v.size()), "first"), stride = ctx.choose(2, "direction");
    ctx.shard();
    ctx.note("container");
    std::map<std::shared_ptr<ValueCheckerBase>, size_t, ValueCheckerLess> m;
    for (size_t i = 0; i < v.size(); ++i) { size_t k = stride ? (i + shift) % v.size() : (v.size() + shift - i) % v.size(); m[v[k].ptr] = k; }
    for (auto const& c : v) { auto it = m.find(c.ptr); CHECK(it != m.end() && same(v[it->second], c), "container", c.name); }
    ctx.state(mc::Hash()("map")(shift)(stride));
}
mc::Register r2("container", container, true);

// counts of one matrix asked through every sequence of checkers
void cache(mc::Ctx& ctx)
{
    auto const& v = all(ctx.thorough());
    int n = int(v.size());
    Checker const& a = v[ctx.choose(n, "a")];
    ctx.shard();
    Checker const& b = v[ctx.choose(n, "b")];
    ctx.note("cache");
    D<double> d0 = dense<double>(content()); D<float> f0 = dense<float>(content()); S<double> s0 = sparse<double>(content());
    for (auto const& c : v) {
        D<double> d(d0); D<float> f(f0); S<double> s(s0);
        Checker const* seq[] = { &a, &b, &c, &a, &b };
        for (auto const* x : seq) {
            CHECK(x->count_dense(d) == expected(*x), "dense", x->name + " after " + a.name + ", " + b.name + ", " + c.name + ": " + std::to_string(x->count_dense(d)) + " instead of " + std::to_string(expected(*x)));
            CHECK(x->count_float(f) == expected(*x), "float", x->name + " after " + a.name + ", " + b.name + ", " + c.name);
            CHECK(x->count_sparse(s) == expected(*x) || x->accepts(0.0), "sparse", x->name + " after " + a.name + ", " + b.name + ", " + c.name + ": " + std::to_string(x->count_sparse(s)) + " instead of " + std::to_string(expected(*x)));
            CHECK(x->occupation(d) == double(expected(*x)) / 45.0, "occupation", x->name);
        }
    }
    ctx.state(mc::Hash()("cache")(a.name)(b.name));
}
mc::Register r3("cache", cache, true);

// thresholds which differ by a few units in the last place, or by less than another type could tell: neighbours are different checkers
template <class T> void close(mc::Ctx& ctx)
{
    typedef std::numeric_limits<T> L;
    T inf = L::infinity();
    static const std::vector<T> bases{ T(0), L::denorm_min(), L::min(), T(1e-7), T(0.5), T(1), T(1e7), T(16777216), L::max() };
    T base = ctx.pick(bases); Bound B = Bound(ctx.choose(4, "bound"));
    ctx.shard();
    std::vector<T> t{ base }; for (int k = 0; k < 2; ++k) t.push_back(std::nextafter(t.back(), inf)); if (base > 0) t.push_back(std::nextafter(base, T(0)));
    t.push_back(base * T(1 + 1e-4)); t.push_back(T(double(base) * (1 + 1e-9))); t.push_back(T(double(base) * (1 + 1e-12)));
    std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
    std::vector<Checker> v; std::vector<T> at(t);
    for (T x : t) { at.push_back(std::nextafter(x, inf)); if (x > 0) at.push_back(std::nextafter(x, T(0))); }
    auto several = [&](auto tag) { constexpr Bound K = decltype(tag)::value; for (T l : t) for (T u : t) if (valid<T>(K, l, u)) {
        typedef typename CheckerType<T, K>::type C; C c = CheckerType<T, K>::make(l, u);
        std::ostringstream n; n << std::hexfloat << tname<T>() << " " << bound_names[K] << " " << l; if (K != EN) n << ".." << u;
        bool known = false; for (auto const& x : v) known |= x.name == n.str(); if (known) continue;
        Checker x; x.name = n.str(); x.ptr = std::make_shared<C>(c); x.accepts = [c](double y) { return c(T(y)); };
        x.count_dense = [c](D<double> const& m) { return m.getNbOfSignificantElements(c); };
        v.push_back(x); } };
    switch (B) { case EN: several(std::integral_constant<Bound, EN>()); break; case EI: several(std::integral_constant<Bound, EI>()); break; case II: several(std::integral_constant<Bound, II>()); break; default: several(std::integral_constant<Bound, EE>()); }
    ValueCheckerLess less;
    Ref values(1, at.size()); for (size_t i = 0; i < at.size(); ++i) values.v[i] = double(at[i]);
    D<double> m = dense<double>(values);
    for (auto const& a : v) for (auto const& b : v) {
        bool ab = less(a.ptr, b.ptr), ba = less(b.ptr, a.ptr), alike = true; for (T x : at) alike &= a.accepts(double(x)) == b.accepts(double(x));
        CHECK(!(ab && ba), "close:asymmetric", a.name + " and " + b.name);
        if (!ab && !ba) CHECK(alike, "close:equivalent", a.name + " and " + b.name + " are equivalent but accept different values");
        if (&a == &b) CHECK(!ab, "close:irreflexive", a.name);
        if (sizeof(T) == 8) {
            size_t ea = 0, eb = 0; for (T x : at) { ea += a.accepts(double(x)); eb += b.accepts(double(x)); }
            size_t na = a.count_dense(m), nb = b.count_dense(m);
            CHECK(na == ea && nb == eb, "close:count", a.name + " then " + b.name + ": " + std::to_string(na) + ", " + std::to_string(nb) + " instead of " + std::to_string(ea) + ", " + std::to_string(eb));
        }
        for (auto const& c : v) if (ab && less(b.ptr, c.ptr)) CHECK(less(a.ptr, c.ptr), "close:transitive", a.name + " < " + b.name + " < " + c.name);
    }
    ctx.state(mc::Hash()("close")(tname<T>())(double(base))(int(B)));
    ctx.outcome("close thresholds");
}
mc::Register r4("close double", close<double>, true), r5("close float", close<float>, true);

} // namespace
