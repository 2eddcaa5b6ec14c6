// Stand-in for the (not installed) command line parser Clara: the part of its interface the programs use.
#pragma once
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace clara {
struct Part
{
    std::vector<std::string> names; std::string hint, text; bool flag = false, positional = false;
    std::function<bool(std::string const&)> set;
};
template <class T> std::function<bool(std::string const&)> setter(T& v)
{
    return [&v](std::string const& s) {
        if constexpr (std::is_same<T, std::string>::value) { v = s; return true; }
        else { std::istringstream i(s); T x; if (!(i >> x) || !i.eof()) return false; v = x; return true; }
    };
}
struct Opt : Part
{
    Opt(bool& v) { flag = true; set = [&v](std::string const&) { return v = true; }; }
    template <class T> Opt(T& v, std::string const& h) { hint = h; set = setter(v); }
    Opt& operator[](std::string const& n) { names.push_back(n); return *this; }
    Opt& operator()(std::string const& t) { text = t; return *this; }
    Opt& required() { return *this; }
};
struct Help : Opt { Help(bool& v) : Opt(v) { (*this)["-?"]["-h"]["--help"]("display usage information"); } };
struct Arg : Part
{
    template <class T> Arg(T& v, std::string const& h) { hint = h; positional = true; set = setter(v); }
    Arg& operator()(std::string const& t) { text = t; return *this; }
    Arg& required() { return *this; }
};
struct Args { std::vector<std::string> a; Args(int n, char const* const* v) : a(v + (n ? 1 : 0), v + n) {} };
struct Result { std::string error; explicit operator bool() const { return error.empty(); } std::string errorMessage() const { return error; } };
struct Parser
{
    std::vector<Part> parts;
    Result parse(Args const& args) const
    {
        size_t next = 0; std::vector<Part const*> pos;
        for (auto& p : parts) if (p.positional) pos.push_back(&p);
        for (size_t i = 0; i < args.a.size(); ++i) {
            std::string const& t = args.a[i];
            if (t.size() > 1 && t[0] == '-') {
                Part const* hit = nullptr;
                for (auto& p : parts) for (auto& n : p.names) if (n == t) hit = &p;
                if (!hit) return { "Unrecognised token: " + t };
                if (hit->flag) { hit->set(""); continue; }
                if (++i == args.a.size()) return { "Expected argument following " + t };
                if (!hit->set(args.a[i])) return { "Unable to convert '" + args.a[i] + "' to destination type" };
            } else {
                if (next == pos.size()) return { "Unrecognised token: " + t };
                if (!pos[next++]->set(t)) return { "Unable to convert '" + t + "' to destination type" };
            }
        }
        return {};
    }
};
inline Parser operator|(Part const& a, Part const& b) { return { { a, b } }; }
inline Parser operator|(Parser p, Part const& b) { p.parts.push_back(b); return p; }
inline std::ostream& operator<<(std::ostream& o, Parser const& p)
{
    for (auto& x : p.parts) { for (auto& n : x.names) o << n << ' '; o << '<' << x.hint << "> " << x.text << '\n'; }
    return o;
}
}
