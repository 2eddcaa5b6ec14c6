// Stand-in for the (not installed) BrainTwister/JSON.h: a property tree read from a JSON text.
#pragma once
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <sstream>
#include <string>
struct JSON
{
    explicit JSON(std::string const& text) { std::istringstream is(text); boost::property_tree::read_json(is, tree); }
    operator boost::property_tree::ptree const&() const { return tree; }
    boost::property_tree::ptree tree;
};
