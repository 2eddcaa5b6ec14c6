// All ways to walk over a dense matrix; f(i,j,reference) is called for every element.
#pragma once
#include "bb.h"

namespace routes {
using namespace bb;

// A route visits all elements and gives the caller the reference of element (i,j).
template <class M> using Visit = std::function<void(size_t, size_t, typename M::value_type&)>;

template <class M, class Outer, class Inner, bool OuterIsRow>
void cursors(M& m, std::function<void(size_t, size_t, typename std::conditional<std::is_const<M>::value, typename M::const_value_type, typename M::value_type>::type&)> f, bool backwards)
{
    typedef Cursor<M, Outer> O;
    typedef Cursor<O, Inner> I;
    size_t no = OuterIsRow ? m.getNbRows() : m.getNbColumns(), ni = OuterIsRow ? m.getNbColumns() : m.getNbRows();
    if (!backwards) {
        size_t o = 0;
        for (O oc(m, 0), oe(m, no); oc != oe; ++oc, ++o) {
            if (*oc != o) throw mc::Failure{"cursor-index", "outer cursor reports index " + std::to_string(*oc) + " at step " + std::to_string(o)};
            size_t i = 0;
            for (I ic(m, oc.begin()), ie(m, oc.end()); ic != ie; ++ic, ++i) {
                if (i >= ni) throw mc::Failure{"cursor-overrun", "inner cursor does not meet its end"};
                f(OuterIsRow ? o : i, OuterIsRow ? i : o, *ic);
            }
            if (i != ni) throw mc::Failure{"cursor-count", "inner cursor visits " + std::to_string(i) + " of " + std::to_string(ni) + " elements"};
        }
        if (o != no) throw mc::Failure{"cursor-count", "outer cursor count"};
    } else {
        size_t o = no;
        O oc(m, no), ob(m, 0);
        while (oc != ob) {
            --oc; --o;
            I ic(m, oc.end()), ib(m, oc.begin());
            size_t i = ni;
            while (!(ic == ib)) {
                if (i == 0) throw mc::Failure{"cursor-overrun", "backward inner cursor does not meet its begin"};
                --ic; --i;
                f(OuterIsRow ? o : i, OuterIsRow ? i : o, *ic);
            }
            if (i) throw mc::Failure{"cursor-count", "backward inner cursor count"};
        }
    }
}

char const* const route_names[] = { "operator()", "const operator()", "raw storage", "iterator", "const iterator", "Row/Column", "Column/Row", "Minor/Major", "Major/Minor",
    "Row/Column backwards", "Column/Row backwards", "const Row/Column", "const Column/Row", "const Major/Minor backwards" };
const int nb_routes = 14;

template <class M> struct is_cm : std::is_same<typename M::orientation, ColumnMajor> {};

template <class M>
void route(int which, M& m, std::function<void(size_t, size_t, typename M::value_type&)> f)
{
    using namespace BlasBooster::Direction;
    typedef typename M::value_type T;
    size_t r = m.getNbRows(), c = m.getNbColumns();
    const bool cm = is_cm<M>::value;
    M const& cm_ref = m;
    auto g = [&](size_t i, size_t j, T const& x) { f(i, j, const_cast<T&>(x)); };
    switch (which) {
    case 0: for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) f(i, j, m(i, j)); break;
    case 1: for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g(i, j, cm_ref(i, j)); break;
    case 2: for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) f(i, j, m.getDataPointer()[cm ? i + j * m.getLdRows() : i * m.getLdColumns() + j]); break;
    case 3: { size_t n = 0; for (auto it = m.begin(); it != m.end(); ++it, ++n) { if (n >= r * c) throw mc::Failure{"iterator-overrun", "iterator does not meet end()"}; f(cm ? n % r : n / c, cm ? n / r : n % c, *it); }
        if (n != r * c) throw mc::Failure{"iterator-count", "begin()..end() has " + std::to_string(n) + " elements instead of " + std::to_string(r * c)}; break; }
    case 4: { size_t n = 0; for (auto it = cm_ref.begin(); it != cm_ref.end(); ++it, ++n) { if (n >= r * c) throw mc::Failure{"iterator-overrun", "const iterator does not meet end()"}; g(cm ? n % r : n / c, cm ? n / r : n % c, *it); }
        if (n != r * c) throw mc::Failure{"iterator-count", "const begin()..end() has " + std::to_string(n) + " elements"}; break; }
    case 5: cursors<M, Row, Column, true>(m, f, false); break;
    case 6: cursors<M, Column, Row, false>(m, f, false); break;
    case 7: cursors<M, Minor, Major, !is_cm<M>::value>(m, f, false); break;
    case 8: cursors<M, Major, Minor, is_cm<M>::value>(m, f, false); break;
    case 9: cursors<M, Row, Column, true>(m, f, true); break;
    case 10: cursors<M, Column, Row, false>(m, f, true); break;
    case 11: cursors<const M, Row, Column, true>(cm_ref, g, false); break;
    case 12: cursors<const M, Column, Row, false>(cm_ref, g, false); break;
    case 13: cursors<const M, Major, Minor, is_cm<M>::value>(cm_ref, g, true); break;
    }
}

} // namespace routes
