// C21: every BLAS wrapper forwards to its routine with the right arguments.
#define MC_MAIN
#include "mc.h"
#include "c21_record.h"
#include <complex>
#include <BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h>
#include <BlasBooster/BlasInterface/BlasInterface_IntelMKL.h>
#include <cstring>
#include <limits>
namespace bbrec { std::vector<Call> calls; double result; }
using namespace BlasBooster;

namespace {

struct Outcome { bool callable = false; std::complex<double> value; };
template <class Interface, class Function, class R, class... A> struct Wrapper
{
    typedef BlasInterface<Interface, Function> B;
    template <size_t... I> static void go(void* const* a, Outcome& o, std::index_sequence<I...>)
    {
        if constexpr (std::is_invocable<B const&, A...>::value) {
            if constexpr (std::is_same<R, typename std::invoke_result<B const&, A...>::type>::value) {
                o.callable = true; B const b{};
                if constexpr (std::is_void<R>::value) b(static_cast<A>(a[I])...); else o.value = std::complex<double>(b(static_cast<A>(a[I])...));
            }
        }
    }
    static void call(void* const* a, Outcome& o) { go(a, o, std::index_sequence_for<A...>()); }
};
struct Entry { char const *interface, *name, *symbol, *kinds, *result; void (*call)(void* const*, Outcome&); std::string (*label)(); };
const std::vector<Entry> table{
#include "blas_table.h"
};

struct Cell { alignas(16) unsigned char bytes[32]; };
const int ints[] = { 3, 0, 1, -1, 2147483647, -2147483647 - 1 };
const char chars[] = { 'N', 'T', 'C', 'U', 'L', 'R', 'n', 't', 'u', 'l', 'r', 'X' };
const double reals[] = { 2.5, 0.0, 1.0, -1.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity() };
const double results[] = { 7.0, 0.0, -1.0, 12345.0 };
void put(Cell& c, char kind, int which)
{
    std::memset(c.bytes, 0x5a, sizeof c.bytes);
    switch (kind) {
    case 'i': { int x = ints[which % 6]; std::memcpy(c.bytes, &x, sizeof x); break; }
    case 'c': c.bytes[0] = chars[which % 12]; break;
    case 'f': { float x = float(reals[which % 6]); std::memcpy(c.bytes, &x, sizeof x); break; }
    case 'd': { double x = reals[which % 6]; std::memcpy(c.bytes, &x, sizeof x); break; }
    case 'F': { std::complex<float> x(float(reals[which % 6]), -2); std::memcpy(c.bytes, &x, sizeof x); break; }
    case 'D': { std::complex<double> x(reals[which % 6], -2); std::memcpy(c.bytes, &x, sizeof x); break; }
    }
}

SCENARIO_SHARDED(wrappers)
{
    Entry const& e = table[ctx.choose(int(table.size()), "wrapper")];
    ctx.shard();
    std::string who = std::string(e.interface) + " " + e.name;
    int n = int(std::strlen(e.kinds));
    std::vector<Cell> cells(n), before; std::vector<void*> args;
    for (int i = 0; i < n; ++i) put(cells[i], e.kinds[i], 0);
    int mode = ctx.choose(3, "mode");
    std::string what;
    if (mode == 0) {          // the same value of a kind everywhere, in all combinations
        int k[3] = { ctx.choose(6, "int"), ctx.choose(12, "char"), ctx.choose(6, "real") };
        if (k[1] && std::string(e.kinds).find('c') == std::string::npos) throw mc::Prune();
        for (int i = 0; i < n; ++i) put(cells[i], e.kinds[i], e.kinds[i] == 'i' ? k[0] : e.kinds[i] == 'c' ? k[1] : k[2]);
        what = "values " + std::to_string(k[0]) + "," + std::to_string(k[1]) + "," + std::to_string(k[2]);
    } else if (mode == 1) {   // any value for any two of the arguments
        int i = ctx.choose(n, "argument"), j = ctx.choose(i + 1, "other argument");
        int vi = ctx.choose(e.kinds[i] == 'c' ? 12 : 6, "value"), vj = i == j ? vi : ctx.choose(e.kinds[j] == 'c' ? 12 : 6, "other value");
        put(cells[i], e.kinds[i], vi); put(cells[j], e.kinds[j], vj);
        what = "arguments " + std::to_string(i) + "," + std::to_string(j) + " with values " + std::to_string(vi) + "," + std::to_string(vj);
    }
    before = cells;
    for (auto& c : cells) args.push_back(&c);
    if (mode == 2) {          // two arguments at the same address, or none at all
        int i = ctx.choose(n, "argument"), j = ctx.choose(i + 1, "other argument");
        args[i] = i == j ? nullptr : args[j];
        what = "argument " + std::to_string(i) + (i == j ? " null" : " is argument " + std::to_string(j));
    }
    bbrec::result = ctx.choose(mode == 0 ? 4 : 1, "result") + 0; bbrec::result = results[int(bbrec::result)];
    bbrec::calls.clear();
    Outcome o;
    e.call(args.data(), o);
    ctx.note(who);
    CHECK(o.callable, "signature:" + who, "can not be called with its documented arguments and result");
    CHECK(bbrec::calls.size() == 1, "calls:" + who, std::to_string(bbrec::calls.size()) + " calls, " + what);
    CHECK(bbrec::calls[0].symbol == e.symbol, "routine:" + who, "calls " + bbrec::calls[0].symbol + ", " + what);
    for (int i = 0; i < n; ++i) CHECK(bbrec::calls[0].args[i] == args[i], "argument:" + who, "argument " + std::to_string(i) + " is passed wrongly, " + what);
    for (int i = 0; i < n; ++i) CHECK(!std::memcmp(cells[i].bytes, before[i].bytes, sizeof(Cell)), "changed:" + who, "the wrapper changes argument " + std::to_string(i) + ", " + what);
    if (std::string(e.result) != "void") {
        double want = std::strchr(e.result, 'x') ? bbrec::result : std::string(e.result) == "int" ? int(bbrec::result) : bbrec::result;
        CHECK(o.value.real() == want && o.value.imag() == (std::strchr(e.result, 'x') ? 3 : 0), "result:" + who, "returns " + std::to_string(o.value.real()) + " instead of " + std::to_string(want) + ", " + what);
    }
    CHECK(e.label() == e.name, "name:" + who, "is named " + e.label());
    ctx.state(mc::Hash()(who)(what)(bbrec::result));
    ctx.outcome(who);
}

SCENARIO(threads)
{
    int n = ctx.pick(std::vector<int>{ 0, 1, 2, 8, -1, 1000 }, "threads"); bool mkl = ctx.flag();
    bbrec::calls.clear();
    if (mkl) IntelMKL_set_num_threads(n); else OpenBLAS_set_num_threads(n);
    if (mkl && bbrec::calls.size() == 2 && bbrec::calls[0].symbol == "MKL_Set_Dynamic" && bbrec::calls[0].args[0] == nullptr) bbrec::calls.erase(bbrec::calls.begin());   // threads are not adjusted dynamically
    CHECK(bbrec::calls.size() == 1 && bbrec::calls[0].symbol == (mkl ? "MKL_Set_Num_Threads" : "openblas_set_num_threads") && bbrec::calls[0].args[0] == (void*)(long)n, "threads", std::to_string(n));
    ctx.outcome(mkl ? "MKL threads" : "OpenBLAS threads");
}

/// the complex scalar products return their result by value; the real OpenBLAS calculates them
template <class T, class F> void product(mc::Ctx& ctx, bool conjugate, char const* name)
{
    typedef std::complex<T> C;
    int n = ctx.choose(4, "n"), incs[] = { 1, 2, 3, -1, -2 };
    int ix = incs[ctx.choose(5, "incx")], iy = incs[ctx.choose(5, "incy")];
    std::vector<C> x(12), y(12);
    int variant = ctx.choose(ctx.tier(3, 8), "values");
    for (int i = 0; i < 12; ++i) { x[i] = C(T(1 + i * 3 % 7), T((i + variant) % 5 - 2)); y[i] = C(T(2 - (i * 5 + variant) % 9), T(i * i % 4)); }
    auto at = [n](std::vector<C> const& v, int inc, int k) { return v[inc > 0 ? k * inc : (n - 1 - k) * -inc]; };
    C expected(0);
    for (int k = 0; k < n; ++k) { C a = at(x, ix, k), b = at(y, iy, k); expected += (conjugate ? std::conj(a) : a) * b; }
    std::vector<C> x0 = x, y0 = y;
    C got = BlasInterface<OpenBLAS, F>()(&n, x.data(), &ix, y.data(), &iy);
    std::string what = "n=" + std::to_string(n) + " incx=" + std::to_string(ix) + " incy=" + std::to_string(iy);
    CHECK(got == expected, std::string("product:OpenBLAS ") + name, "(" + std::to_string(got.real()) + "," + std::to_string(got.imag()) + ") instead of (" + std::to_string(expected.real()) + "," + std::to_string(expected.imag()) + "), " + what);
    CHECK(x == x0 && y == y0, std::string("changed:OpenBLAS ") + name, what);
    CHECK(F::name() == name, std::string("name:OpenBLAS ") + name, F::name());
    ctx.state(mc::Hash()(std::string(name))(what)(variant));
    ctx.outcome(name);
}
SCENARIO(products)
{
    switch (ctx.choose(4, "function")) {
    case 0: product<float, cdotc>(ctx, true, "cdotc"); break;
    case 1: product<float, cdotu>(ctx, false, "cdotu"); break;
    case 2: product<double, zdotc>(ctx, true, "zdotc"); break;
    default: product<double, zdotu>(ctx, false, "zdotu");
    }
}

} // namespace
