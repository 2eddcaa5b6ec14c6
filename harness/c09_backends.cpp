// C09: OpenBLAS, Eigen, Blaze (stand-in) and the best-policy interface multiply like the native one.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "backends.h"
#include <BlasBooster/Core/Multiplication_OpenBLAS.h>
#include <BlasBooster/Core/Multiplication_Eigen.h>
#include <BlasBooster/Core/Multiplication_Blaze.h>

namespace {

template <> struct Iface<OpenBLAS> { static std::string name() { return "OpenBLAS"; } };
template <> struct Iface<EigenI> { static std::string name() { return "Eigen"; } };
template <> struct Iface<Blaze> { static std::string name() { return "Blaze"; } };

#if MC_PART == 0
const char* const what = "OpenBLAS";
void all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    backend<OpenBLAS, D<double>, D<double>>(ctx, a, b); backend<OpenBLAS, D<float>, D<float>>(ctx, a, b);
    row_major<OpenBLAS, double>(ctx, a, b); row_major<OpenBLAS, float>(ctx, a, b);
    functor<OpenBLAS, double, double, double>(ctx, a, b); functor<OpenBLAS, float, float, float>(ctx, a, b);
}
#define VALUES values<OpenBLAS, D<double>, D<double>>(ctx, a, b); values<OpenBLAS, D<float>, D<float>>(ctx, a, b); values<OpenBLAS, D<double, RM>, D<double, RM>>(ctx, a, b);
#elif MC_PART == 1
const char* const what = "Eigen";
void all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    backend<EigenI, D<double>, D<double>>(ctx, a, b); backend<EigenI, D<float>, D<float>>(ctx, a, b);
    backend<EigenI, D<double>, D<float>>(ctx, a, b); backend<EigenI, D<float>, D<double>>(ctx, a, b);
    row_major<EigenI, double>(ctx, a, b);
    functor<EigenI, double, double, double>(ctx, a, b); functor<EigenI, float, float, float>(ctx, a, b);
    functor<EigenI, float, double, double>(ctx, a, b); functor<EigenI, double, float, double>(ctx, a, b);
}
#define VALUES values<EigenI, D<double>, D<double>>(ctx, a, b); values<EigenI, D<float>, D<float>>(ctx, a, b); values<EigenI, D<double>, D<float>>(ctx, a, b); values<EigenI, D<float>, D<double>>(ctx, a, b); values<EigenI, D<double, RM>, D<double, RM>>(ctx, a, b);
#elif MC_PART == 2
const char* const what = "Blaze";
void all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    if (a.r == 0 || a.c == 0 || b.c == 0) return;   // Blaze's CustomMatrix does not take empty arrays
    backend<Blaze, D<double>, D<double>>(ctx, a, b); backend<Blaze, D<float>, D<float>>(ctx, a, b);
    backend<Blaze, D<double>, D<float>>(ctx, a, b); backend<Blaze, D<float>, D<double>>(ctx, a, b);
    row_major<Blaze, double>(ctx, a, b);
    functor<Blaze, double, double, double>(ctx, a, b); functor<Blaze, float, float, float>(ctx, a, b);
    functor<Blaze, float, double, double>(ctx, a, b); functor<Blaze, double, float, double>(ctx, a, b);
}
#define VALUES values<Blaze, D<double>, D<double>>(ctx, a, b); values<Blaze, D<float>, D<float>>(ctx, a, b); values<Blaze, D<double>, D<float>>(ctx, a, b); values<Blaze, D<float>, D<double>>(ctx, a, b);
#elif MC_PART == 3
const char* const what = "TheBestPolicy dense";
void all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    best<D<double>>(ctx, a, b); best<D<float>>(ctx, a, b); row_major<TheBestPolicy, double>(ctx, a, b);
}
#define VALUES values_all<TheBestPolicy, D<double>>(ctx, a, b); values_all<TheBestPolicy, D<float>>(ctx, a, b);
#elif MC_PART == 4
const char* const what = "TheBestPolicy sparse";
void all(mc::Ctx& ctx, Ref const& a, Ref const& b) { best<S<double>>(ctx, a, b); best<S<float>>(ctx, a, b); best<Z>(ctx, a, b); }
#define VALUES values_all<TheBestPolicy, S<double>>(ctx, a, b); values_all<TheBestPolicy, S<float>>(ctx, a, b);
#else
const char* const what = "TheBestPolicy multiple";
void all(mc::Ctx& ctx, Ref const& a, Ref const& b) { best<MSS>(ctx, a, b); best<MSD>(ctx, a, b); }
#endif

#include "backend_scenarios.inc"

#ifdef VALUES
void exact(mc::Ctx& ctx)
{
    auto o = value_operands(ctx); Ref const &a = o.first, &b = o.second;
    VALUES
    ctx.state(mc::Hash()("values")(hash(a))(hash(b)));
}
mc::Register r5(std::string("values ") + what, exact, true);
#endif

} // namespace
