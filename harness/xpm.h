// Reader for the X pixmaps the pattern generator writes.
#pragma once
#include "bb.h"
#include <BlasBooster/Core/PatternGenerator.h>
#include <fstream>
namespace {
using namespace bb;
struct Palette { std::vector<std::string> index, color; std::vector<double> threshold; std::string bgi, bgc; };
PatternGenerator::Settings settings(Palette const& p)
{
    PatternGenerator::Settings s;
    for (size_t i = 0; i < p.index.size(); ++i) { PatternGenerator::Color c; c.index = p.index[i]; c.color = p.color[i]; if (p.threshold[i] != 0.0) c.threshold = p.threshold[i];   /* no threshold: zero */ s.palette.push_back(c); }
    s.background_index = p.bgi; s.background_color = p.bgc;
    return s;
}
std::string slurp(std::string const& n) { std::ifstream i(n, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

/// reader for X pixmaps: the strings of the array in order
struct Xpm { size_t w = 0, h = 0, n = 0, cpp = 0; std::vector<std::pair<std::string, std::string>> colors; std::vector<std::string> rows; };
Xpm parse(std::string s)
{
    auto bad = [&](std::string const& w) { return mc::Failure{ "format", w + " in:\n" + s }; };
    if (s.compare(0, 9, "/* XPM */")) throw bad("no XPM marker");
    for (size_t b; (b = s.find("/*")) != std::string::npos;) { size_t e = s.find("*/", b); if (e == std::string::npos) throw bad("open comment"); s.erase(b, e + 2 - b); }
    size_t b = s.find('{'), e = s.rfind('}');
    if (b == std::string::npos || e == std::string::npos || s.substr(0, b).find("static char") == std::string::npos || s.substr(0, b).find('=') == std::string::npos) throw bad("no array");
    std::string tail = s.substr(e + 1); tail.erase(std::remove_if(tail.begin(), tail.end(), ::isspace), tail.end());
    if (tail != ";") throw bad("text after the array");
    std::vector<std::string> strings; bool comma = true;
    for (size_t i = b + 1; i < e; ++i) {
        if (isspace(s[i])) continue;
        if (s[i] == ',') { if (comma) throw bad("doubled comma"); comma = true; continue; }
        if (s[i] != '"' || !comma) throw bad("missing comma or quote");
        size_t j = s.find('"', i + 1); if (j > e) throw bad("open string");
        strings.push_back(s.substr(i + 1, j - i - 1)); i = j; comma = false;
    }
    Xpm x; if (strings.empty()) throw bad("no header");
    std::istringstream h(strings[0]); h >> x.w >> x.h >> x.n >> x.cpp; std::string more; if (!h || (h >> more)) throw bad("header");
    if (strings.size() != 1 + x.n + x.h) throw bad(std::to_string(strings.size()) + " strings instead of " + std::to_string(1 + x.n + x.h));
    for (size_t i = 0; i < x.n; ++i) {
        std::string c = strings[1 + i]; if (c.size() < x.cpp) throw bad("colour"); std::string rest = c.substr(x.cpp); std::istringstream r(rest); std::string key, col; r >> key >> col;
        if (key != "c" || col.empty() || (r >> more)) throw bad("colour " + c);
        x.colors.push_back({ c.substr(0, x.cpp), col });
    }
    for (size_t i = 0; i < x.h; ++i) { x.rows.push_back(strings[1 + x.n + i]); if (x.rows.back().size() != x.w * x.cpp) throw bad("row " + std::to_string(i)); }
    return x;
}
template <class T> std::string expected(Palette const& p, T x)
{
    double a = x < 0 ? -double(x) : double(x);
    for (size_t i = 0; i < p.index.size(); ++i) if (a >= p.threshold[i]) return p.index[i];
    return p.bgi;
}
}
