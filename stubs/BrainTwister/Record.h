// Stand-in for the (not installed) BrainTwister/Record.h: a plain struct with
// defaulted members, chained setters and construction from a property tree.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/preprocessor/stringize.hpp>
#include <boost/preprocessor/cat.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/lexical_cast.hpp>
#include <string>
#include <vector>

namespace BrainTwister { namespace stub {
template <class T> inline void load(T& v, boost::property_tree::ptree const& t)
{ if constexpr (std::is_constructible<T, boost::property_tree::ptree const&>::value) v = T(t);
  else v = boost::lexical_cast<T>(t.get_value<std::string>()); }
template <class T> inline void load(std::vector<T>& v, boost::property_tree::ptree const& t)
{ v.clear(); for (auto const& c : t) { T x{}; load(x, c.second); v.push_back(x); } }
inline boost::property_tree::ptree const& body(boost::property_tree::ptree const& t, char const* name)
{ auto c = t.get_child_optional(name); return c ? *c : t; }
}}

#define BTR_E(n, f) BOOST_PP_TUPLE_ELEM(3, n, f)
#define BTR_MEMBER(r, d, f) BTR_E(0,f) BTR_E(1,f) = BTR_E(2,f); \
    auto& BOOST_PP_CAT(set_, BTR_E(1,f))(BTR_E(0,f) const& v) { BTR_E(1,f) = v; return *this; }
#define BTR_LOAD(r, d, f) if (auto c = b.get_child_optional(BOOST_PP_STRINGIZE(BTR_E(1,f)))) \
    BrainTwister::stub::load(BTR_E(1,f), *c);
#define BRAINTWISTER_RECORD(Name, Fields) struct Name { \
    Name() {} \
    explicit Name(boost::property_tree::ptree const& t) { \
        auto const& b = BrainTwister::stub::body(t, BOOST_PP_STRINGIZE(Name)); (void)b; \
        BOOST_PP_SEQ_FOR_EACH(BTR_LOAD, _, Fields) } \
    BOOST_PP_SEQ_FOR_EACH(BTR_MEMBER, _, Fields) };
