// C31: the benchmark program multiplies the matrices its settings describe by the actions they name, and reports what it measured.
#define MC_MAIN
#include "program.h"
#include "disk.h"
#include <fstream>
#include <BlasBooster/../../src/Benchmark/ActionProvider.h>
#include <BlasBooster/../../src/Benchmark/MatrixProvider.h>
#include <BlasBooster/../../src/Benchmark/time.h>
extern "C" int benchmark_program(int, char**);
using namespace bb;
extern "C" int openblas_get_num_threads(void);

namespace {

BrainTwister::BenchmarkProbe& probe() { return BrainTwister::probe(); }
const std::vector<std::string> actions{ "native_dense", "openblas_dgemm", "openblas_sgemm", "eigen_dgemm", "eigen_sgemm", "blaze_dgemm", "blaze_sgemm", "blaze_sdgemm", "blaze_dsgemm", "blasbooster_block" };
bool single(std::string const& a) { return a == "openblas_sgemm" || a == "eigen_sgemm" || a == "blaze_sgemm" || a == "blaze_sdgemm" || a == "blaze_dsgemm"; }

std::shared_ptr<ActionBase> action(std::string const& name, ptree const& settings = ptree())
{
    ptree t; t.add_child(name, settings);
    auto l = ActionProvider(t).get();
    if (l.size() != 1) throw mc::Failure{ "action:" + name, std::to_string(l.size()) + " actions instead of one" };
    return l[0];
}
ptree block_settings(int which)
{
    ptree t; if (!which) return t;
    t.put("threshold.min_block_size", which == 1 ? 1 : 2); t.put("threshold.max_block_size", which == 1 ? 2 : 5);
    return t;
}

void product(mc::Ctx& ctx, std::string const& name, Ref const& a, Ref const& b, ptree const& settings)
{
    auto act = action(name, settings);
    CHECK(act->name() == name, "name:" + name, act->name());
    D<double> A(dense<double, CM>(a)), B(dense<double, CM>(b));
    probe() = { 1 + ctx.choose(3, "runs") };
    for (int again = 0; again < 2; ++again) {
        probe().calls = probe().executed = 0;
        auto [C, time, details] = act->execute(A, B, BrainTwister::Benchmark());
        CHECK(bb::ref(C) == mul(a, b), "product:" + name, str(bb::ref(C)) + " instead of " + str(mul(a, b)) + " for " + str(a) + " * " + str(b));
        CHECK(bb::ref(A) == a && bb::ref(B) == b, "operands changed:" + name, "");
        long sum = 0; for (int i = 0; i < probe().calls; ++i) sum += probe().tick << i;
        CHECK(probe().calls >= 1 && time.count() == sum, "time:" + name, std::to_string(time.count()) + " ns for " + std::to_string(probe().calls) + " measurements");
        long parts = 0; for (auto& d : details) parts += std::get<1>(d).count();
        if (name == "blasbooster_block") CHECK(details.size() == 3 && std::get<0>(details[0]) == "size" && std::get<0>(details[1]) == "block" && std::get<0>(details[2]) == "mult" && parts == sum, "details:" + name, std::to_string(details.size()) + " details");
        else CHECK(details.empty(), "details:" + name, std::to_string(details.size()) + " details");
    }
    ctx.outcome(name); ctx.state(mc::Hash()(name)(hash(a).h)(hash(b).h)(probe().runs));
}

SCENARIO_SHARDED(products)
{
    std::string name = ctx.pick(actions, "action"); ctx.note(name);
    int top = ctx.tier(3, 4);
    size_t m = ctx.range(1, top, "m"), k = ctx.range(1, top, "k"), n = ctx.range(1, top, "n");
    ctx.shard();
    Ref a = structured(m, k, ctx.choose(4, "a")), b = structured(k, n, ctx.choose(4, "b"));
    product(ctx, name, a, b, name == "blasbooster_block" ? block_settings(ctx.choose(3, "blocks")) : ptree());
}
SCENARIO_SHARDED(patterns)
{
    std::string name = ctx.pick(actions, "action"); ctx.note(name);
    unsigned x = ctx.choose(16, "a");
    ctx.shard();
    unsigned y = ctx.choose(16, "b");
    product(ctx, name, pattern(2, 2, x), pattern(2, 2, y), name == "blasbooster_block" ? block_settings(ctx.choose(2, "blocks")) : ptree());
}
SCENARIO_SHARDED(wide_products)
{
    static const std::vector<std::array<size_t, 3>> all = big_triples(true), few = [] { std::vector<std::array<size_t, 3>> f; for (auto& t : big_triples(false)) { bool in = true; for (size_t s : t) in &= s <= 65; if (in) f.push_back(t); } return f; }();
    std::string name = ctx.pick(actions, "action"); ctx.note(name);
    auto s = ctx.pick(ctx.thorough() ? all : few, "shape");
    ctx.shard();
    auto [p, q] = ctx.pick(std::vector<std::pair<int, int>>{ { 0, 5 }, { 3, 6 } }, "patterns");
    ptree t;
    if (name == "blasbooster_block") { auto [lo, hi] = ctx.pick(std::vector<std::pair<int, int>>{ { 0, 0 }, { 1, 8 }, { 4, 16 } }, "blocks"); if (hi) { t.put("threshold.min_block_size", lo); t.put("threshold.max_block_size", hi); } }
    product(ctx, name, structured(s[0], s[1], p, wcode), structured(s[1], s[2], q, wother), t);
}
/// single precision actions round the operands, double precision ones do not
SCENARIO_SHARDED(precision)
{
    std::string name = ctx.pick(actions, "action"); ctx.note(name);
    ctx.shard();
    size_t n = ctx.range(1, 4, "n");
    const double x = 1 + std::ldexp(1, -30);
    Ref a = make(n, n, [&](size_t i, size_t j) { return i == j ? x : 0; }), b = make(n, n, [&](size_t i, size_t j) { return double(1 + i + 2 * j); });
    probe() = {};
    bool swap = ctx.flag("swapped");
    auto r = action(name)->execute(dense<double, CM>(swap ? b : a), dense<double, CM>(swap ? a : b), BrainTwister::Benchmark());
    Ref c = bb::ref(std::get<0>(r));
    bool rounded = single(name) && !(name == "blaze_dsgemm" && !swap) && !(name == "blaze_sdgemm" && swap);
    if (name == "blaze_dsgemm" || name == "blaze_sdgemm" || name == "blasbooster_block") { // at least the accuracy of single precision
        for (size_t i = 0; i < c.v.size(); ++i) CHECK(std::abs(c.v[i] - b.v[i]) <= 1e-6 * b.v[i], "accuracy:" + name, str(c));
    } else CHECK(c == (rounded ? b : mul(swap ? b : a, swap ? a : b)), "precision:" + name, str(c));
    ctx.outcome(name + (rounded ? " rounded" : " exact")); ctx.state(mc::Hash()(name)(n)(swap));
}
SCENARIO(threads)
{
    std::string name = ctx.flag("single") ? "openblas_sgemm" : "openblas_dgemm";
    int n = ctx.range(1, 3, "threads");
    ptree t; t.put("number_of_threads", n);
    probe() = {};
    action(name, t)->execute(dense<double, CM>(pattern(2, 2, 7)), dense<double, CM>(pattern(2, 2, 5)), BrainTwister::Benchmark());
    CHECK(openblas_get_num_threads() == n, "threads:" + name, std::to_string(openblas_get_num_threads()) + " instead of " + std::to_string(n));
    action(name)->execute(dense<double, CM>(pattern(2, 2, 7)), dense<double, CM>(pattern(2, 2, 5)), BrainTwister::Benchmark());
    CHECK(openblas_get_num_threads() == 1, "default threads:" + name, "");
    ctx.outcome(name + std::to_string(n)); ctx.state(mc::Hash()(name)(n));
}
/// every list of actions up to three, in order; unknown ones are refused
SCENARIO_SHARDED(lists)
{
    std::vector<std::string> pool = actions; pool.push_back("openblas"); pool.push_back("native_dense2"); pool.push_back(""); pool.push_back("OPENBLAS_DGEMM");
    int n = ctx.range(0, 3, "length");
    ptree t; std::vector<std::string> want; bool unknown = false;
    for (int i = 0; i < n; ++i) {
        std::string a = ctx.pick(pool, "action"); want.push_back(a); unknown |= std::find(actions.begin(), actions.end(), a) == actions.end();
        t.push_back({ a, ptree() });
        if (i == 0) ctx.shard();
    }
    if (!n) ctx.shard();
    try {
        auto l = ActionProvider(t).get();
        CHECK(!unknown, "unknown action accepted", "");
        CHECK(l.size() == want.size(), "number of actions", std::to_string(l.size()));
        for (size_t i = 0; i < want.size(); ++i) CHECK(l[i]->name() == want[i], "order of actions", l[i]->name() + " instead of " + want[i]);
        ctx.outcome(std::to_string(n) + " actions");
    } catch (mc::Failure const&) { throw; } catch (std::exception const&) { CHECK(unknown, "known actions refused", ""); ctx.outcome("refused"); }
    mc::Hash h; for (auto& w : want) h(w); ctx.state(h);
}

Ref band(size_t n, size_t w, double x) { return make(n, n, [&](size_t i, size_t j) { return (i > j ? i - j : j - i) < w ? x : 0.0; }); }
ptree list(std::vector<size_t> const& v) { ptree t; for (size_t x : v) { ptree e; e.put_value(x); t.push_back({ "", e }); } return t; }
bool equal(std::vector<D<double>> const& l, std::vector<Ref> const& want) { if (l.size() != want.size()) return false; for (size_t i = 0; i < l.size(); ++i) if (bb::ref(l[i]) != want[i]) return false; return true; }

SCENARIO_SHARDED(bands)
{
    int top = ctx.tier(4, 6);
    std::vector<size_t> dims, widths; std::vector<Ref> want;
    for (int i = ctx.range(0, 2, "dimensions"); i; --i) dims.push_back(ctx.range(1, top, "dimension"));
    ctx.shard();
    for (int i = ctx.range(0, 2, "widths"); i; --i) widths.push_back(ctx.range(0, top + 2, "width"));
    double x = ctx.pick(std::vector<double>{ 1, -0.5, 0 }, "value");
    for (size_t d : dims) for (size_t w : widths) want.push_back(band(d, w, x));
    ptree t, b; b.add_child("dimension", list(dims)); b.add_child("band_width", list(widths)); b.put("value", x);
    ptree a; a.push_back({ "DiagonalBand", b }); t.push_back({ "A", a });
    ptree e; e.put("EqualTo", "A"); t.push_back({ "B", e });
    std::string what; for (size_t d : dims) what += " " + std::to_string(d); what += " /"; for (size_t w : widths) what += " " + std::to_string(w);
    if (want.empty()) throw mc::Prune();
    ctx.note("band" + what);
    MatrixProvider p(t);
    CHECK(equal(p.get("A"), want), "band matrices", what);
    CHECK(equal(p.get("B"), want), "equal to", what);
    auto l = p.get("A");
    { l[0](0, 0) += 1; CHECK(equal(p.get("A"), want) && equal(p.get("B"), want), "independent", what); }
    ctx.outcome(std::to_string(want.size()) + " matrices"); ctx.state(mc::Hash()(what)(x));
}
SCENARIO_SHARDED(wide_bands)
{
    size_t d = ctx.pick(big_sides(ctx.thorough()), "dimension"); size_t w = ctx.pick(std::vector<size_t>{ 0, 1, 2, 7, 8, 9, d / 2, d - 1, d, d + 1, 2 * d }, "width");
    ctx.shard();
    ptree t, a, b; b.add_child("dimension", list({ d, 3 })); b.add_child("band_width", list({ w })); b.put("value", -3); a.push_back({ "DiagonalBand", b }); t.push_back({ "A", a });
    std::string what = std::to_string(d) + "/" + std::to_string(w); ctx.note("band " + what);
    CHECK(equal(MatrixProvider(t).get("A"), { band(d, w, -3), band(3, w, -3) }), "band matrices", what);
    ctx.outcome(w < d ? "band" : "full"); ctx.state(mc::Hash()(what));
}
SCENARIO(sources)
{
    { std::ofstream o("m.bin", std::ios::binary); double v[6] = { 1, 2, 3, 4, 5, 6 }; o.write((char*)v, sizeof v); }
    { std::ofstream o("m.xml"); o << "<?xml version=\"1.0\"?><MatrixFileSettings><nbRows>2</nbRows><nbColumns>3</nbColumns><rowLeadingDimension>2</rowLeadingDimension><columnLeadingDimension>3</columnLeadingDimension><rowOffset>0</rowOffset><columnOffset>0</columnOffset><filename>m.bin</filename></MatrixFileSettings>"; }
    static const char* kinds[] = { "File", "missing file", "EqualTo", "EqualTo nothing", "unknown type", "two entries", "not there" };
    int k = ctx.choose(7, "kind");
    ptree t, a, b; bool refused = false; std::vector<Ref> want{ make(2, 3, [](size_t i, size_t j) { return double(1 + i + 2 * j); }) };
    std::string name = "A";
    switch (k) {
        case 0: a.put("File", "m.xml"); break;
        case 1: a.put("File", "none.xml"); refused = true; break;
        case 2: b.put("File", "m.xml"); t.push_back({ "B", b }); a.put("EqualTo", "B"); break;
        case 3: a.put("EqualTo", "C"); refused = true; break;
        case 4: a.put("Diagonal", "m.xml"); refused = true; break;
        case 5: a.add("File", "m.xml"); a.add("File", "m.xml"); want.push_back(want[0]); break;
        case 6: a.put("File", "m.xml"); name = "X"; refused = true; break;
    }
    t.push_back({ "A", a });
    try { MatrixProvider p(t); auto l = p.get(name); CHECK(!refused, std::string("accepted:") + kinds[k], ""); CHECK(equal(l, want), std::string("matrices:") + kinds[k], std::to_string(l.size())); }
    catch (mc::Failure const&) { throw; } catch (std::exception const& e) { CHECK(refused, std::string("refused:") + kinds[k], e.what()); }
    ctx.outcome(kinds[k]); ctx.state(mc::Hash()(k));
}

/// durations are printed in seconds with the digits set, and leave the format as it was
SCENARIO_SHARDED(durations)
{
    long ns = ctx.pick(std::vector<long>{ 0, 1, 999, 1000000, 1234567890, 86400000000000, 500000000, 49999999, 50000000 }, "duration");
    int digits = ctx.range(0, 9, "digits");
    ctx.shard();
    std::ostringstream o; int f = ctx.choose(3, "format");
    if (f == 1) o << std::scientific; if (f == 2) o << std::fixed << std::showpos;
    auto flags = o.flags();
    o << set_duration_accuracy(digits) << BrainTwister::myclock::duration(ns);
    char want[64]; snprintf(want, sizeof want, f == 2 ? "%+.*f" : "%.*f", digits, 1.0e-9 * ns);
    CHECK(o.str() == want, "duration", o.str() + " instead of " + want);
    CHECK(o.flags() == flags, "format", "");
    std::ostringstream q; q << BrainTwister::myclock::duration(ns);
    snprintf(want, sizeof want, "%.0f", 1.0e-9 * ns);
    CHECK(q.str() == want, "other stream", q.str());
    ctx.outcome(std::to_string(digits)); ctx.state(mc::Hash()(ns)(digits)(f));
}

/// the program itself
std::string json_list(std::vector<size_t> const& v) { std::string s = "["; for (size_t x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
std::vector<std::string> words(std::string const& l) { std::istringstream i(l); std::vector<std::string> w; for (std::string x; i >> x;) w.push_back(x); return w; }
SCENARIO_SHARDED(program)
{
    std::vector<std::string> names;
    int n = ctx.range(0, 3, "actions");
    static const std::vector<std::string> pool{ "native_dense", "openblas_sgemm", "eigen_dgemm", "blasbooster_block", "blaze_dsgemm", "no_action" };
    bool unknown = false;
    for (int i = 0; i < n; ++i) { names.push_back(ctx.pick(pool, "action")); unknown |= names.back() == "no_action"; if (i == 0) ctx.shard(); }
    if (!n) ctx.shard();
    std::vector<size_t> dims; for (int i = ctx.range(0, 2, "matrices"); i; --i) dims.push_back(ctx.range(1, 3, "dimension"));
    bool unequal = dims.size() == 2 && ctx.flag("unequal numbers"), diff = !unknown && n > 1 && !unequal && ctx.flag("diff");
    double value = ctx.pick(std::vector<double>{ 1, 1 + std::ldexp(1, -30) }, "value");
    probe() = { 1 + ctx.choose(2, "runs") };
    std::ostringstream s; s.precision(17);
    s << "{ \"actions\": {"; for (size_t i = 0; i < names.size(); ++i) s << (i ? "," : "") << "\"" << names[i] << "\": {}"; s << "}, \"matrices\": { \"A\": { \"DiagonalBand\": { \"dimension\": " << json_list(dims) << ", \"band_width\": [2], \"value\": " << value << " } }, ";
    if (unequal) s << "\"B\": { \"DiagonalBand\": { \"dimension\": [2], \"band_width\": [1], \"value\": 1 } }"; else s << "\"B\": { \"EqualTo\": \"A\" }";
    s << "} }";
    { std::ofstream o("settings.json"); o << s.str(); }
    for (int i = 0; i < 2; ++i) std::remove(("diff_" + std::to_string(i) + ".dat").c_str());
    std::vector<std::string> args{ "-s", "settings.json", "-a", "4" }; if (diff) args.push_back("-d");
    std::string out; ctx.note(s.str());
    int rc = run(benchmark_program, args, out);
    bool ok = !unknown && n && dims.size() && !unequal;
    CHECK((rc == 0) == ok, ok ? "program fails" : "program succeeds", s.str() + "\n" + out);
    CHECK((out.find("successfully finished") != std::string::npos) == ok && (out.find("aborted") != std::string::npos) == !ok, "last words", out);
    ctx.outcome(ok ? "finished" : "aborted"); ctx.state(mc::Hash()(s.str())(diff));
    if (!ok) return;
    std::istringstream in(out); std::string line; bool body = false; std::vector<std::vector<std::string>> table;
    while (std::getline(in, line)) { auto w = words(line); if (line == std::string(120, '-')) body = true; else if (body && w.size() >= 2 && w[0].find_first_not_of("0123456789") == std::string::npos && std::find(pool.begin(), pool.end(), w[1]) != pool.end()) table.push_back(w); }
    CHECK(table.size() == dims.size() * names.size(), "rows of the table", out);
    for (size_t m = 0; m < dims.size(); ++m) {
        Ref a = band(dims[m], 2, value), f = round_to_float(a), base;
        for (size_t i = 0; i < names.size(); ++i) {
            auto& w = table[m * names.size() + i];
            CHECK(w[0] == std::to_string(m) && w[1] == names[i] && w.size() >= 5, "row", out);
            Ref c = names[i] == "openblas_sgemm" ? mul(f, f) : names[i] == "blaze_dsgemm" ? mul(a, f) : mul(a, a);
            if (i == 0) base = c;
            double mx = 0, two = 0; for (size_t e = 0; e < c.v.size(); ++e) { double d = std::abs(c.v[e] - base.v[e]); mx = std::max(mx, d); two += d * d; }
            two = std::sqrt(two);
            auto near = [&](std::string const& t, double x) { return std::abs(std::stod(t) - x) <= 2e-4 * x + 1e-15; };
            // what the blocked and mixed products round depends on the conversion: only the bound is known
            bool exact = (names[i] == "native_dense" || names[i] == "eigen_dgemm" || names[i] == "openblas_sgemm") && (names[0] == "native_dense" || names[0] == "eigen_dgemm" || names[0] == "openblas_sgemm");
            if (exact) CHECK(near(w[3], mx) && near(w[4], two), "deviation", w[3] + " " + w[4] + " instead of " + std::to_string(mx) + " " + std::to_string(two) + "\n" + out);
            else CHECK(std::stod(w[3]) <= 1e-7 * 9 && std::stod(w[4]) <= 1e-7 * 27, "deviation", out);
        }
        std::ifstream d("diff_" + std::to_string(m) + ".dat", std::ios::binary | std::ios::ate);
        CHECK(bool(d) == diff, "difference file", diff ? "not written" : "written without being asked for");
        if (diff) CHECK(size_t(d.tellg()) == dims[m] * dims[m] * sizeof(double), "difference file:size", "");
    }
}
/// a disk with room for every number of bytes of the difference matrix
SCENARIO_SHARDED(full_disk)
{
    size_t n = ctx.pick(std::vector<size_t>{ 1, 2, 3, 33 }, "dimension"), size = n * n * sizeof(double); ctx.shard();
    probe() = { 1 };
    std::vector<size_t> rooms; for (size_t k = 0; k <= size; ++k) if (n < 33 || k % ctx.tier(97, 8) < 2 || size - k < 20) rooms.push_back(k);
    size_t room = rooms[ctx.choose(int(rooms.size()), "room")];
    { std::ofstream o("settings.json"); o << "{ \"actions\": { \"native_dense\": {}, \"eigen_dgemm\": {} }, \"matrices\": { \"A\": { \"DiagonalBand\": { \"dimension\": [" << n << "], \"band_width\": [2], \"value\": 1 } }, \"B\": { \"EqualTo\": \"A\" } } }"; }
    std::remove("diff_0.dat");
    std::string out; int rc; { Disk disk(room); rc = run(benchmark_program, { "-s", "settings.json", "-d" }, out); }
    std::ifstream d("diff_0.dat", std::ios::binary | std::ios::ate); size_t written = d ? size_t(d.tellg()) : 0; bool ok = room >= size;
    ctx.note(std::to_string(n) + " with room for " + std::to_string(room));
    CHECK((rc == 0) == ok && (out.find("successfully finished") != std::string::npos) == ok, ok ? "full disk:program fails" : "full disk:program succeeds", std::to_string(written) + " of " + std::to_string(size) + " bytes written\n" + out);
    CHECK(!ok || written == size, "full disk:size", std::to_string(written));
    ctx.outcome(ok ? "written" : "disk full"); ctx.state(mc::Hash()("disk")(n)(room));
}
/// misuse of the command line
SCENARIO(arguments)
{
    static const std::vector<std::vector<std::string>> lines{ { "-s", "none.json" }, { "-x" }, { "stray" }, { "-s" }, { "-a", "many" }, { "--help" }, { "--settings", "broken.json" }, { "-s", "empty.json" } };
    { std::ofstream o("broken.json"); o << "{ \"actions\": "; } { std::ofstream o("empty.json"); o << "{}"; }
    int i = ctx.choose(int(lines.size()), "line");
    std::string out; int rc = run(benchmark_program, lines[i], out);
    CHECK((rc == 0) == (lines[i][0] == "--help"), "misuse", lines[i][0] + "\n" + out);
    ctx.outcome(lines[i][0]); ctx.state(mc::Hash()(i));
}

} // namespace
