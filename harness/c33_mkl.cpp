// C33: the Intel MKL back end, bound to a stand-in of the MKL functions it calls.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "backends.h"
#include <BlasBooster/Core/Multiplication_IntelMKL.h>
extern "C" int mkl_errors; extern "C" char mkl_error[200];

namespace {

template <> struct Iface<IntelMKL> { static std::string name() { return "IntelMKL"; } };

void products(mc::Ctx& ctx, Ref const& a, Ref const& b);
void all(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    mkl_errors = 0;
    products(ctx, a, b);
    CHECK(mkl_errors == 0, std::string("arguments:") + mkl_error, std::to_string(a.r) + "x" + std::to_string(a.c) + " * " + std::to_string(b.r) + "x" + std::to_string(b.c));
}

#if MC_PART == 0
const char* const what = "dense";
void products(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    backend<IntelMKL, D<double>, D<double>>(ctx, a, b); backend<IntelMKL, D<float>, D<float>>(ctx, a, b);
    row_major<IntelMKL, double>(ctx, a, b); row_major<IntelMKL, float>(ctx, a, b);
    functor<IntelMKL, double, double, double>(ctx, a, b); functor<IntelMKL, float, float, float>(ctx, a, b);
}
#elif MC_PART == 1
const char* const what = "sparse";
void products(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    backend<IntelMKL, S<double>, D<double>>(ctx, a, b); backend<IntelMKL, S<float>, D<float>>(ctx, a, b);
    backend<IntelMKL, S<double>, S<double>>(ctx, a, b); backend<IntelMKL, S<float>, S<float>>(ctx, a, b);
}
#elif MC_PART == 2
const char* const what = "TheBestPolicy dense";
void products(mc::Ctx& ctx, Ref const& a, Ref const& b)
{
    best<D<double>>(ctx, a, b); best<D<float>>(ctx, a, b); row_major<TheBestPolicy, double>(ctx, a, b);
}
#elif MC_PART == 3
const char* const what = "TheBestPolicy sparse";
void products(mc::Ctx& ctx, Ref const& a, Ref const& b) { best<S<double>>(ctx, a, b); best<S<float>>(ctx, a, b); best<Z>(ctx, a, b); }
#else
const char* const what = "TheBestPolicy multiple";
void products(mc::Ctx& ctx, Ref const& a, Ref const& b) { best<MSS>(ctx, a, b); best<MSD>(ctx, a, b); }
#endif

#include "backend_scenarios.inc"

} // namespace
