// C14: value range checkers accept exactly their documented interval.
#define MC_MAIN
#include "checkers.h"
using namespace bb;

namespace {

template <class T> std::vector<T> points();
template <class F> std::vector<F> floating()
{
    typedef std::numeric_limits<F> L;
    std::vector<F> base{ F(0), L::denorm_min(), L::min(), L::epsilon(), F(1e-30), F(1e-6), F(0.5), F(1), F(3), F(1e30), L::max() }, all;
    for (F x : base) { all.push_back(x); all.push_back(std::nextafter(x, F(0))); all.push_back(std::nextafter(x, L::infinity())); }
    std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    return all;
}
template <> std::vector<double> points<double>() { auto v = floating<double>(); for (float x : floating<float>()) v.push_back(x); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
template <> std::vector<float> points<float>() { return floating<float>(); }
template <> std::vector<int> points<int>() { return { 0, 1, 2, 3, 7, 1 << 24, (1 << 24) + 1, std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::max() }; }

template <class T> std::string num(T x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

template <class T, Bound B, class V> void probe(mc::Ctx& ctx, typename CheckerType<T, B>::type const& c, T l, T u, std::string const& tag)
{
    static const std::vector<V> vals = points<V>();
    for (V v : vals) for (int s = 0; s < 2; ++s) {
        V x = s ? V(-v) : v;
        CHECK(c(x) == accepts<T>(B, l, u, std::abs((long double)v)), "accept:" + tag + ":" + tname<V>(), std::string(c(x) ? "accepts " : "rejects ") + num(x) + " for thresholds " + num(l) + ", " + num(u));
    }
}

template <class T, Bound B> void one(mc::Ctx& ctx, T l, T u)
{
    std::string tag = tname<T>() + ":" + bound_names[B];
    ctx.note(tag);
    bool ok = true;
    try { CheckerType<T, B>::make(l, u); } catch (CoreException const&) { ok = false; }
    CHECK(ok == valid<T>(B, l, u), "construction:" + tag, std::string(ok ? "accepts" : "rejects") + " thresholds " + num(l) + ", " + num(u));
    ctx.outcome(tag + (ok ? " valid" : " invalid"));
    if (!ok) return;
    auto c = CheckerType<T, B>::make(l, u);
    auto copy = c; decltype(c) assigned = CheckerType<T, B>::make(T(B == EN ? 5 : 2), T(6)); assigned = c;
    for (auto const* p : { &c, &copy, &assigned }) {
        probe<T, B, double>(ctx, *p, l, u, tag); probe<T, B, float>(ctx, *p, l, u, tag); probe<T, B, int>(ctx, *p, l, u, tag);
        typedef std::numeric_limits<double> L;
        for (double s : { 1.0, -1.0 }) {
            bool e = accepts<T>(B, l, u, std::numeric_limits<long double>::infinity());
            CHECK((*p)(s * L::infinity()) == e && (*p)(float(s) * std::numeric_limits<float>::infinity()) == e, "infinity:" + tag, num(l) + ", " + num(u));
        }
        CHECK(!(*p)(L::quiet_NaN()) && !(*p)(std::numeric_limits<float>::quiet_NaN()), "nan:" + tag, num(l) + ", " + num(u));
        CHECK((*p)(std::complex<double>(3.0, -4.0)) == accepts<T>(B, l, u, 5.0L), "complex:" + tag, num(l) + ", " + num(u));
    }
    ctx.state(mc::Hash()(tag)(l)(u));
}

template <class T> void thresholds(mc::Ctx& ctx)
{
    std::vector<T> t = points<T>();
    if (std::numeric_limits<T>::has_infinity) { t.push_back(std::numeric_limits<T>::infinity()); t.push_back(T(-0.0)); t.push_back(std::numeric_limits<T>::quiet_NaN()); t.push_back(-std::numeric_limits<T>::denorm_min()); }
    t.push_back(T(-1)); t.push_back(std::numeric_limits<T>::lowest());
    T l = ctx.pick(t, "lower"), u = ctx.pick(t, "upper");
    ctx.shard();
    one<T, EN>(ctx, l, u); one<T, EI>(ctx, l, u); one<T, II>(ctx, l, u); one<T, EE>(ctx, l, u);
}
mc::Register r1("thresholds double", thresholds<double>, true);
mc::Register r2("thresholds float", thresholds<float>, true);
mc::Register r3("thresholds int", thresholds<int>, true);

// the default: exclusive lower bound 0, that is "nonzero"
void defaults(mc::Ctx& ctx)
{
    AbsoluteValueRangeChecker<double> d; AbsoluteValueRangeChecker<float> f; AbsoluteValueRangeChecker<int> i;
    for (double x : points<double>()) {
        CHECK(d(x) == (x != 0.0) && d(-x) == (x != 0.0) && f(x) == (x != 0.0) && i(-x) == (x != 0.0), "default", num(x));
        float y = float(x);
        if (std::isfinite(y)) CHECK(d(y) == (y != 0.0f) && f(-y) == (y != 0.0f) && i(y) == (y != 0.0f), "default float", num(y));
    }
    static_assert(std::is_same<AbsoluteValueRangeChecker<double>, AbsoluteValueRangeChecker<double, ExclusiveBound, NoBound>>::value, "default bounds");
    ctx.outcome("default");
}
mc::Register r4("defaults", defaults);

} // namespace
