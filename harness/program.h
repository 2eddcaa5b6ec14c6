// Run a program (its main linked under another name) in this process and collect what it prints.
#pragma once
#include "bb.h"
namespace {
typedef int Main(int, char**);
int run(Main* program, std::vector<std::string> args, std::string& out)
{
    args.insert(args.begin(), "program"); std::vector<char*> v; for (auto& a : args) v.push_back(&a[0]); v.push_back(nullptr);
    std::ostringstream o; auto* c = std::cout.rdbuf(o.rdbuf()); auto* e = std::cerr.rdbuf(o.rdbuf());
    auto flags = std::cout.flags(); auto precision = std::cout.precision();
    int rc;
    try { rc = program(int(args.size()), v.data()); } catch (...) { std::cout.rdbuf(c); std::cerr.rdbuf(e); throw mc::Failure{ "program terminates", "by an exception which leaves main" }; }
    std::cout.rdbuf(c); std::cerr.rdbuf(e); std::cout.flags(flags); std::cout.precision(precision); std::cout.clear();
    out = o.str(); return rc;
}
/// the exit status and the last words agree, and both say `ok`
void verdict(mc::Ctx& ctx, int rc, std::string const& out, bool ok, std::string const& tag)
{
    CHECK((rc == 0) == ok, std::string(ok ? "program fails:" : "program succeeds:") + tag, out);
    CHECK((out.find("successfully finished") != std::string::npos) == ok, "last words:" + tag, out);
    ctx.outcome(tag + (ok ? " finished" : " aborted"));
}
}
