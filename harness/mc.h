// Stateless exhaustive explorer used by every check.
//
// A scenario is a deterministic function of the answers it gets from Ctx::choose().  The explorer
// enumerates *all* answer sequences depth first (every execution is run from scratch against the real
// BlasBooster code), so finishing the enumeration is a proof for the bounded scenario.
// Nothing is sampled.  A scenario may call Ctx::shard() after its first choices: executions are then
// dealt out over the worker processes by the index of the prefix chosen so far.
#pragma once

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc {

struct Failure { std::string sig, msg; };
struct Skip {};      // execution belongs to another shard
struct Prune {};     // choice sequence is not a legal execution (not counted)

struct Journal {
    volatile uint64_t seq;
    char scenario[128];
    int nchoices;
    int choices[512];
    char note[1024];
};

class Hash {
public:
    uint64_t h = 1469598103934665603ull;
    Hash& raw(void const* p, size_t n) {
        auto c = static_cast<unsigned char const*>(p);
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        return *this;
    }
    template <class T> Hash& operator()(T const& v) {
        static_assert(std::is_trivially_copyable<T>::value, "hash of trivially copyable values only");
        return raw(&v, sizeof(T));
    }
    Hash& operator()(std::string const& s) { raw(s.data(), s.size()); unsigned char z = 0; return raw(&z, 1); }
    Hash& operator()(char const* s) { return (*this)(std::string(s)); }
    template <class T> Hash& operator()(std::vector<T> const& v) { size_t n = v.size(); (*this)(n); for (auto const& x : v) (*this)(x); return *this; }
};

struct Options {
    int shard = 0, nshards = 1;
    bool thorough = false;
    double budget_s = 0;
    std::string out, journal, only;
};

struct Stats {
    uint64_t executions = 0, transitions = 0, points = 0, pruned = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> outcomes;
    std::map<std::string, uint64_t> per_scenario;
    std::vector<std::string> samples;
    struct Fail { std::string sig, msg, scenario; std::vector<int> choices; uint64_t count; };
    std::map<std::string, Fail> fails;
    std::vector<std::string> truncated;
};

class Ctx {
public:
    Ctx(Options const& o, Stats& s, Journal* j) : opt(o), st(s), jr(j) {}

    /// One nondeterministic choice out of {0,..,n-1}.
    int choose(int n, char const* name = "") {
        if (n <= 0) throw Prune();
        int v;
        if (pos < path.size()) {
            v = path[pos];
            if (replaying) {
                if (v >= n) { std::fprintf(stderr, "replay divergence: choice %zu is %d of %d (%s)\n", pos, v, n, name); std::_Exit(3); }
            } else if (arity[pos] != n) {
                std::fprintf(stderr, "nondeterministic scenario %s: arity of choice %zu (%s) changed from %d to %d\n",
                    scenario.c_str(), pos, name, arity[pos], n);
                std::_Exit(3);
            }
        } else {
            if (replaying) { std::fprintf(stderr, "replay divergence: more choices than recorded (%s)\n", name); std::_Exit(3); }
            v = 0;
            path.push_back(0);
            arity.push_back(n);
            ++st.points;
        }
        if (jr && pos < 512) { jr->choices[pos] = v; jr->nchoices = int(pos) + 1; }
        ++pos;
        if (!prefix.empty()) prefix += ',';
        prefix += std::to_string(v);
        return v;
    }
    bool flag(char const* name = "") { return choose(2, name) == 1; }
    template <class V> auto pick(V const& v, char const* name = "") -> typename V::value_type const& { return v[choose(int(v.size()), name)]; }
    int range(int lo, int hi, char const* name = "") { return lo + choose(hi - lo + 1, name); }

    /// Deal the executions that share the prefix chosen so far to one worker.
    void shard() {
        if (sharded) return;
        if (!may_shard) { std::fprintf(stderr, "scenario %s is not declared sharded\n", scenario.c_str()); std::_Exit(3); }
        sharded = true;
        if (replaying) return;
        if (prefix != last_prefix || !have_prefix) { ++prefix_index; last_prefix = prefix; have_prefix = true; }
        if (int((prefix_index - 1) % uint64_t(opt.nshards)) != opt.shard) throw Skip();
    }

    void state(uint64_t h) { if (st.states.size() < 6000000) st.states.insert(h); ++st.transitions; }
    void state(Hash const& h) { state(h.h); }
    void step(uint64_t n = 1) { st.transitions += n; }
    void outcome(std::string const& s) { if (st.outcomes.size() < 4000 || st.outcomes.count(s)) ++st.outcomes[s]; }
    /// label used for the signature of a crash/hang of this execution
    void note(std::string const& s) { if (jr) { std::strncpy(jr->note, s.c_str(), sizeof(jr->note) - 1); } cur_note = s; }
    void sample(std::string const& s) { if (st.samples.size() < 12) st.samples.push_back(scenario + " [" + prefix + "] " + s); }

    [[noreturn]] void fail(std::string const& sig, std::string const& msg) { throw Failure{sig, msg}; }
    void check(bool ok, std::string const& sig, std::string const& msg) { step(); if (!ok) fail(sig, msg); }
    /// report and go on with this execution
    void soft(bool ok, std::string const& sig, std::string const& msg) { step(); if (!ok) record(sig, msg); }
    void record(std::string const& sig, std::string const& msg) {
        auto it = st.fails.find(sig);
        if (it == st.fails.end()) {
            if (st.fails.size() < 5000) st.fails[sig] = Stats::Fail{sig, msg, scenario, std::vector<int>(path.begin(), path.begin() + pos), 1};
        } else ++it->second.count;
        failed = true;
    }
    bool thorough() const { return opt.thorough; }
    int tier(int quick, int thor) const { return opt.thorough ? thor : quick; }

    Options const& opt;
    Stats& st;
    Journal* jr;
    std::string scenario, prefix, last_prefix, cur_note;
    bool have_prefix = false, sharded = false, may_shard = false, replaying = false, failed = false;
    uint64_t prefix_index = 0;
    std::vector<int> path, arity;
    size_t pos = 0;
};

typedef std::function<void(Ctx&)> Body;

struct Scenario { std::string name; Body body; bool sharded, thorough_only; };

inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

struct Register {
    Register(std::string const& name, Body b, bool sharded = false, bool thorough_only = false) { scenarios().push_back({name, b, sharded, thorough_only}); }
};

// the texts are only built when the condition fails
#define CHECK(cond, sig, msg) do { ctx.step(); if (!(cond)) ctx.fail(sig, msg); } while (0)
#define SOFT(cond, sig, msg) do { ctx.step(); if (!(cond)) ctx.record(sig, msg); } while (0)

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// SCENARIO: explored by one worker; SCENARIO_SHARDED: calls ctx.shard() and is dealt out over the workers
#define SCENARIO(fn) static void fn(mc::Ctx& ctx); static mc::Register MC_CAT(mc_reg_, fn)(#fn, fn); static void fn([[maybe_unused]] mc::Ctx& ctx)
#define SCENARIO_SHARDED(fn) static void fn(mc::Ctx& ctx); static mc::Register MC_CAT(mc_reg_, fn)(#fn, fn, true); static void fn([[maybe_unused]] mc::Ctx& ctx)

inline std::string jesc(std::string const& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

inline void run_one(Ctx& c, Scenario const& s)
{
    c.pos = 0; c.prefix.clear(); c.sharded = false; c.failed = false; c.cur_note.clear();
    if (c.jr) { c.jr->nchoices = 0; c.jr->note[0] = 0; ++c.jr->seq; }
    try {
        s.body(c);
        ++c.st.executions; ++c.st.per_scenario[s.name];
    }
    catch (Skip const&) {}
    catch (Prune const&) { ++c.st.pruned; }
    catch (Failure const& f) { ++c.st.executions; ++c.st.per_scenario[s.name]; c.record(f.sig, f.msg); }
    catch (std::exception const& e) {
        ++c.st.executions; ++c.st.per_scenario[s.name];
        c.record("exception:" + s.name + ":" + c.cur_note, std::string("unexpected exception: ") + e.what());
    }
}

/// advance to the next unexplored choice sequence; false if done
inline bool next_path(Ctx& c)
{
    c.path.resize(c.pos); c.arity.resize(c.pos);
    while (!c.path.empty()) {
        if (c.path.back() + 1 < c.arity.back()) { ++c.path.back(); return true; }
        c.path.pop_back(); c.arity.pop_back();
    }
    return false;
}

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline int main_(int argc, char** argv)
{
    Options opt;
    std::string replay_scn; std::vector<int> replay_choices; bool replay = false, list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--shard") { opt.shard = std::stoi(val()); opt.nshards = std::stoi(val()); }
        else if (a == "--thorough") opt.thorough = true;
        else if (a == "--budget") opt.budget_s = std::stod(val());
        else if (a == "--out") opt.out = val();
        else if (a == "--journal") opt.journal = val();
        else if (a == "--only") opt.only = val();
        else if (a == "--list") list = true;
        else if (a == "--replay") {
            replay = true; replay_scn = val();
            std::stringstream ss(val()); std::string t;
            while (std::getline(ss, t, ',')) if (!t.empty()) replay_choices.push_back(std::stoi(t));
        }
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (list) { for (auto& s : scenarios()) std::printf("%s\n", s.name.c_str()); return 0; }

    static Journal dummy;
    Journal* jr = &dummy;
    if (!opt.journal.empty()) {
        int fd = open(opt.journal.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Journal))) { std::perror("journal"); return 3; }
        jr = static_cast<Journal*>(mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (jr == MAP_FAILED) { std::perror("mmap"); return 3; }
    }
    Stats st;
    double t0 = now();
    std::ostringstream sink;                       // the library prints in places; keep our stdout clean
    auto* oldbuf = std::cout.rdbuf(sink.rdbuf());

    if (replay) {
        bool found = false;
        for (auto& s : scenarios()) if (s.name == replay_scn) {
            found = true;
            Ctx c(opt, st, jr); c.scenario = s.name; c.replaying = true; c.may_shard = s.sharded;
            c.path = replay_choices; c.arity.assign(replay_choices.size(), 1 << 30);
            std::strncpy(jr->scenario, s.name.c_str(), sizeof(jr->scenario) - 1);
            run_one(c, s);
        }
        if (!found) { std::fprintf(stderr, "no such scenario %s\n", replay_scn.c_str()); return 3; }
    } else {
        int idx = 0;
        for (auto& s : scenarios()) {
            ++idx;
            if (s.thorough_only && !opt.thorough) continue;
            if (!opt.only.empty() && s.name.find(opt.only) == std::string::npos) continue;
            if (!s.sharded && idx % opt.nshards != opt.shard) continue;
            Ctx c(opt, st, jr); c.scenario = s.name; c.may_shard = s.sharded;
            std::strncpy(jr->scenario, s.name.c_str(), sizeof(jr->scenario) - 1);
            do {
                run_one(c, s);
                if (sink.tellp() > 1000000) sink.str("");
                if (opt.budget_s > 0 && now() - t0 > opt.budget_s) { st.truncated.push_back(s.name); break; }
            } while (next_path(c));
        }
    }
    std::cout.rdbuf(oldbuf);

    std::ostringstream o;
    o << "{\"executions\":" << st.executions << ",\"transitions\":" << st.transitions << ",\"points\":" << st.points
      << ",\"pruned\":" << st.pruned << ",\"wall_s\":" << now() - t0 << ",\"truncated\":[";
    for (size_t i = 0; i < st.truncated.size(); ++i) o << (i ? "," : "") << '"' << jesc(st.truncated[i]) << '"';
    o << "],\"per_scenario\":{";
    { bool f = true; for (auto& p : st.per_scenario) { o << (f ? "" : ",") << '"' << jesc(p.first) << "\":" << p.second; f = false; } }
    o << "},\"outcomes\":{";
    { bool f = true; for (auto& p : st.outcomes) { o << (f ? "" : ",") << '"' << jesc(p.first) << "\":" << p.second; f = false; } }
    o << "},\"samples\":[";
    for (size_t i = 0; i < st.samples.size(); ++i) o << (i ? "," : "") << '"' << jesc(st.samples[i]) << '"';
    o << "],\"fails\":[";
    { bool f = true; for (auto& p : st.fails) {
        o << (f ? "" : ",") << "{\"sig\":\"" << jesc(p.second.sig) << "\",\"msg\":\"" << jesc(p.second.msg.substr(0, 2000)) << "\",\"scenario\":\""
          << jesc(p.second.scenario) << "\",\"count\":" << p.second.count << ",\"choices\":[";
        for (size_t i = 0; i < p.second.choices.size(); ++i) o << (i ? "," : "") << p.second.choices[i];
        o << "]}"; f = false; } }
    o << "]}\n";
    if (!opt.out.empty()) {
        std::ofstream(opt.out) << o.str();
        std::ofstream b(opt.out + ".states", std::ios::binary);
        for (auto h : st.states) b.write(reinterpret_cast<char const*>(&h), sizeof h);
    } else std::printf("%s", o.str().c_str());
    std::fflush(stdout);
    std::_Exit(0);
}

} // namespace mc

#ifdef MC_MAIN
int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif
