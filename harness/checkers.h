// Value range checkers of every kind behind one interface, for C14 and C15.
#pragma once
#include "bb.h"
#include <BlasBooster/Core/AbsoluteValueRangeChecker.h>

namespace bb {

enum Bound { EN, EI, II, EE };
static char const* const bound_names[] = { "Exclusive/No", "Exclusive/Inclusive", "Inclusive/Inclusive", "Exclusive/Exclusive" };
template <class T, Bound B> struct CheckerType;
template <class T> struct CheckerType<T, EN> { typedef AbsoluteValueRangeChecker<T> type; static type make(T l, T) { return type(l); } };
template <class T> struct CheckerType<T, EI> { typedef AbsoluteValueRangeChecker<T, ExclusiveBound, InclusiveBound> type; static type make(T l, T u) { return type(l, u); } };
template <class T> struct CheckerType<T, II> { typedef AbsoluteValueRangeChecker<T, InclusiveBound, InclusiveBound> type; static type make(T l, T u) { return type(l, u); } };
template <class T> struct CheckerType<T, EE> { typedef AbsoluteValueRangeChecker<T, ExclusiveBound, ExclusiveBound> type; static type make(T l, T u) { return type(l, u); } };

/// the documented interval, in extended precision
template <class T> bool accepts(Bound b, T lower, T upper, long double absolute)
{
    long double l = lower, u = upper;
    switch (b) {
    case EN: return absolute > l;
    case EI: return absolute > l && absolute <= u;
    case II: return absolute >= l && absolute <= u;
    default: return absolute > l && absolute < u;
    }
}
template <class T> bool valid(Bound b, T lower, T upper)
{
    if (!(lower >= 0)) return false;
    if (b == EN) return true;
    if (!(upper >= 0)) return false;
    return b == II ? lower <= upper : lower < upper;
}
template <class T> std::string tname();
template <> inline std::string tname<double>() { return "double"; }
template <> inline std::string tname<float>() { return "float"; }
template <> inline std::string tname<int>() { return "int"; }

} // namespace bb
