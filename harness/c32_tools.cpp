// C32: the programs which write a matrix and which draw the pattern of one.
#define MC_MAIN
#include "program.h"
#include "xpm.h"
#include <BlasBooster/Core/BlockedMatrixGenerator.h>
#include <BlasBooster/Core/BlockSizeGenerator.h>
#include <BlasBooster/Core/GenerateTypeMatrix.h>
extern "C" int generate_program(int, char**);
extern "C" int show_program(int, char**);

namespace {

std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
/// the elements column by column, or nothing when there is no such file
bool load(std::string const& file, std::vector<double>& v)
{
    std::ifstream i(file, std::ios::binary); if (!i) return false;
    std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    if (s.size() % sizeof(double)) throw mc::Failure{ "file size", std::to_string(s.size()) };
    v.resize(s.size() / sizeof(double)); if (v.size()) std::memcpy(v.data(), s.data(), s.size());
    return true;
}

/// every shape, band width and value, with each option given in either spelling or left out
SCENARIO_SHARDED(generate)
{
    size_t r = ctx.range(0, ctx.tier(5, 7), "rows"), c = ctx.range(0, ctx.tier(5, 7), "columns"), b = ctx.range(0, ctx.tier(7, 9), "band");
    ctx.shard();
    double x = ctx.pick(std::vector<double>{ 1, -2.5, 0, 1e-300, 1e300 }, "value");
    bool lng = ctx.flag("long options"), old = ctx.flag("old file"), type = ctx.flag("type given");
    std::remove("m.dat"); if (old) { std::ofstream o("m.dat"); o << std::string(4000, 'o'); }
    auto opt = [&](char const* s, char const* l) { return std::string(lng ? l : s); };
    std::vector<std::string> a{ opt("-r", "--rows"), std::to_string(r), opt("-c", "--cols"), std::to_string(c), opt("-m", "--matrix-file"), "m.dat" };
    if (type) { a.push_back(opt("-t", "--type")); a.push_back("band"); }
    if (x != 1 || lng) { a.push_back(opt("-v", "--value")); a.push_back(num(x)); }
    if (b != 1 || lng) { a.push_back(opt("-b", "--band-width")); a.push_back(std::to_string(b)); }
    ctx.note(std::to_string(r) + "x" + std::to_string(c) + " band " + std::to_string(b));
    std::string out; int rc = run(generate_program, a, out);
    verdict(ctx, rc, out, true, "generate");
    std::vector<double> v; CHECK(load("m.dat", v), "no file", out);
    CHECK(v.size() == r * c, "elements written", std::to_string(v.size()));
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) {
        double want = (i > j ? i - j : j - i) < b ? x : 0.0;
        CHECK(v[i + r * j] == want, "element", "(" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(v[i + r * j]) + " instead of " + num(want));
    }
    ctx.state(mc::Hash()(r)(c)(b)(x)(lng)(old)(type));
}

/// large matrices
SCENARIO_SHARDED(wide)
{
    auto shape = wide_shape(ctx, 90000); size_t r = shape.first, c = shape.second;
    ctx.shard();
    size_t b = ctx.pick(std::vector<size_t>{ 0, 1, 2, 8, 33, 300 }, "band");
    std::remove("m.dat");
    std::string out; int rc = run(generate_program, { "-r", std::to_string(r), "-c", std::to_string(c), "-b", std::to_string(b), "-m", "m.dat", "-v", "2.5" }, out); verdict(ctx, rc, out, true, "generate");
    std::vector<double> v; CHECK(load("m.dat", v) && v.size() == r * c, "elements written", std::to_string(v.size()));
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) CHECK(v[i + r * j] == ((i > j ? i - j : j - i) < b ? 2.5 : 0.0), "element", "(" + std::to_string(i) + "," + std::to_string(j) + ") of " + std::to_string(r) + "x" + std::to_string(c) + " is " + num(v[i + r * j]));
    ctx.state(mc::Hash()("wide")(r)(c)(b));
}

/// what is not given has its default
SCENARIO(defaults)
{
    int k = ctx.choose(3, "given");
    std::remove("matrix.dat"); std::remove("m.dat");
    std::vector<std::string> a; if (k == 1) a = { "-r", "3" }; if (k == 2) a = { "-m", "m.dat", "-c", "2" };
    size_t r = k == 1 ? 3 : 1000, c = k == 2 ? 2 : 1000;
    std::string out; int rc = run(generate_program, a, out); verdict(ctx, rc, out, true, "defaults");
    std::vector<double> v; CHECK(load(k == 2 ? "m.dat" : "matrix.dat", v), "no default file", out);
    CHECK(v.size() == r * c, "default size", std::to_string(v.size()));
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) CHECK(v[i + r * j] == (i == j ? 1.0 : 0.0), "default element", std::to_string(i) + " " + std::to_string(j));
    std::remove("matrix.dat"); ctx.state(mc::Hash()(k));
}

/// the block example: four by four blocks of 1000
void blocks(mc::Ctx& ctx)
{
    std::string out; int rc = run(generate_program, { "-t", "block" }, out); verdict(ctx, rc, out, true, "block example");
    std::vector<double> v; CHECK(load("matrix.dat", v), "no file", out); std::remove("matrix.dat");
    CHECK(v.size() == 16000000, "block example size", std::to_string(v.size()));
    for (size_t j = 0; j < 4000; ++j) for (size_t i = 0; i < 4000; ++i) {
        size_t p = i / 1000, q = j / 1000;
        double want = p != q ? 0.0 : p == 1 ? 1e-8 : i == j ? 0.1 : 0.0;
        CHECK(v[i + 4000 * j] == want, "block example element", std::to_string(i) + " " + std::to_string(j));
    }
    ctx.state(mc::Hash()(1));
}
mc::Register bl("block example", blocks, false, true);

/// misuse is refused, and nothing is reported as written which is not
SCENARIO(misuse)
{
    static const std::vector<std::vector<std::string>> lines{ { "-x" }, { "stray" }, { "-r" }, { "-r", "many" }, { "-v", "1.0x" }, { "-m", "nowhere/m.dat", "-r", "2", "-c", "2" }, { "--help" }, { "-h" } };
    int k = ctx.choose(int(lines.size()), "line");
    std::string out; std::remove("matrix.dat"); int rc = run(generate_program, lines[k], out);
    bool help = k >= 6;
    CHECK((rc == 0) == help, "misuse", lines[k][0] + "\n" + out);
    CHECK(out.find("successfully finished") == std::string::npos, "misuse reported as success", lines[k][0] + "\n" + out);
    std::vector<double> v; CHECK(!load("matrix.dat", v), "misuse writes a file", lines[k][0]);
    ctx.outcome(lines[k][0]); ctx.state(mc::Hash()(k));
}

// ---------------------------------------------------------------- show_pattern

const Palette pal{ { "0", "1", "2", "3", "4", "5", "6", "7" }, { "000000", "100000", "200000", "300000", "400000", "500000", "600000", "700000" }, { 0.5, 0.5e-1, 0.5e-2, 0.5e-3, 0.5e-4, 0.5e-5, 0.5e-6, 0.5e-7 }, ".", "ffffff" };
std::string json(Palette const& p, size_t lo, size_t hi)
{
    std::string s = "{ \"pattern_generator_settings\": { \"palette\": [";
    for (size_t i = 0; i < p.index.size(); ++i) s += std::string(i ? "," : "") + "{ \"index\": \"" + p.index[i] + "\", \"color\": \"" + p.color[i] + "\", \"threshold\": " + num(p.threshold[i]) + " }";
    return s + "], \"background_index\": \"" + p.bgi + "\", \"background_color\": \"" + p.bgc + "\" }, \"blocked_matrix_generator_settings\": { \"min_block_size\": " + std::to_string(lo) + ", \"max_block_size\": " + std::to_string(hi) + " } }";
}
void save(D<double> const& m)
{
    std::ofstream o("m.bin", std::ios::binary); if (m.getSize()) o.write(reinterpret_cast<char const*>(&*m.begin()), m.getSize() * sizeof(double));
    auto f = [](char const* n, size_t x) { return std::string("<") + n + ">" + std::to_string(x) + "</" + n + ">"; };
    std::ofstream x("m.xml");
    x << "<?xml version=\"1.0\"?><MatrixFileSettings>" + f("nbRows", m.getNbRows()) + f("nbColumns", m.getNbColumns()) + f("rowLeadingDimension", m.getNbRows()) + f("columnLeadingDimension", m.getNbColumns()) + f("rowOffset", 0) + f("columnOffset", 0) + "<filename>m.bin</filename></MatrixFileSettings>";
}
void compare(mc::Ctx& ctx, D<double> const& want, std::string const& file, std::string const& tag)
{
    Xpm x = parse(slurp(file));
    CHECK(x.w == want.getNbColumns() && x.h == want.getNbRows() && x.cpp == 1 && x.n == pal.index.size() + 1, "size:" + tag, std::to_string(x.h) + "x" + std::to_string(x.w));
    for (size_t i = 0; i < x.n; ++i) CHECK(x.colors[i].first == (i < pal.index.size() ? pal.index[i] : pal.bgi) && x.colors[i].second == "#" + (i < pal.index.size() ? pal.color[i] : pal.bgc), "palette:" + tag, x.colors[i].first);
    for (size_t i = 0; i < x.h; ++i) for (size_t j = 0; j < x.w; ++j)
        CHECK(x.rows[i].substr(j, 1) == expected(pal, want(i, j)), "pixel:" + tag, "(" + std::to_string(i) + "," + std::to_string(j) + ") is '" + x.rows[i].substr(j, 1) + "' instead of '" + expected(pal, want(i, j)) + "'\n" + slurp(file));
}

/// the picture of the elements
SCENARIO_SHARDED(elements)
{
    size_t r = ctx.range(1, 3, "rows"), c = ctx.range(1, 3, "columns"), at = ctx.range(0, int(r * c) - 1, "at");
    ctx.shard();
    double x = ctx.pick(std::vector<double>{ 0, 1, -1, 0.5, 0.04, -1e-3, 1e-9 }, "value"), y = ctx.pick(std::vector<double>{ 0, 1e-4 }, "elsewhere");
    D<double> m(r, c); for (auto& e : m) e = y; m.begin()[at] = x;
    save(m); { std::ofstream o("s.json"); o << json(pal, 200, 1000); }
    bool given = ctx.flag("type given"), named = ctx.flag("file named"), lng = ctx.flag("long options");
    std::remove("p.xpm"); std::remove("pattern.xpm");
    std::vector<std::string> a{ "m.xml", lng ? "--settings" : "-s", "s.json" };
    if (given) { a.push_back(lng ? "--pattern-type" : "-t"); a.push_back("elements"); }
    if (named) { a.push_back(lng ? "--pattern" : "-p"); a.push_back("p.xpm"); }
    ctx.note(std::to_string(r) + "x" + std::to_string(c));
    std::string out; int rc = run(show_program, a, out); verdict(ctx, rc, out, true, "elements");
    compare(ctx, m, named ? "p.xpm" : "pattern.xpm", "elements");
    CHECK(!std::ifstream(named ? "pattern.xpm" : "p.xpm"), "other file", "");
    ctx.state(mc::Hash()(r)(c)(at)(x)(y)(given)(named)(lng));
}

/// the picture of the block types: every block in the colour of its type, with a border of any width
SCENARIO_SHARDED(types)
{
    static const std::vector<std::pair<size_t, size_t>> shapes{ { 1, 1 }, { 2, 2 }, { 1, 4 }, { 4, 1 }, { 3, 5 }, { 5, 3 }, { 4, 4 }, { 6, 6 }, { 6, 4 }, { 8, 8 } };
    auto s = ctx.pick(shapes, "shape"); size_t r = s.first, c = s.second;
    int lo = ctx.range(1, 3, "min"), hi = ctx.pick(std::vector<int>{ 2 * lo, 100 }, "max");
    ctx.shard();
    static const std::vector<double> scale{ 0, 1 + std::ldexp(1, -40), 1, 1e-12 };   // zero, double, float and below significance
    D<double> m(r, c); int q[4]; for (int k = 0; k < 4; ++k) q[k] = ctx.choose(4, "quarter");
    bool sparse = ctx.flag("sparse quarters");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = sparse && i != j && i + j != r ? 0 : scale[q[2 * (2 * i >= r) + (2 * j >= c)]];
    int w = ctx.pick(ctx.thorough() ? std::vector<int>{ -1, 0, 1, 2, 3, 4, 5, 7, 9, 100 } : std::vector<int>{ -1, 0, 1, 2, 4, 9 }, "border");
    save(m); { std::ofstream o("s.json"); o << json(pal, lo, hi); }
    // the partition and the conversions have their own properties: here they are the reference
    std::vector<size_t> rs, cs; std::tie(rs, cs) = BlockSizeGenerator(lo, hi)(m);
    BlockedDenseMatrix b = BlockedMatrixGenerator()(m, rs, cs, Threshold());
    D<double> want(r, c); std::set<int> kinds;
    size_t ro = 0; for (size_t p = 0; p < rs.size(); ro += rs[p], ++p) { size_t co = 0; for (size_t k = 0; k < cs.size(); co += cs[k], ++k) {
        int t = b(p, k)->getTypeIndex(); kinds.insert(t);
        for (size_t i = 0; i < rs[p]; ++i) for (size_t j = 0; j < cs[k]; ++j) want(ro + i, co + j) = int(i) < w || int(j) < w ? 0 : std::pow(10.0, -t);
    } }
    std::remove("p.xpm");
    std::vector<std::string> a{ "-t", "type-blocks", "-s", "s.json", "m.xml", "-p", "p.xpm" };
    if (w) { a.push_back("-w"); a.push_back(std::to_string(w)); }
    ctx.note(std::to_string(r) + "x" + std::to_string(c) + " in blocks of " + std::to_string(lo) + " to " + std::to_string(hi) + ", border " + std::to_string(w));
    std::string out; int rc = run(show_program, a, out); verdict(ctx, rc, out, true, "types");
    compare(ctx, want, "p.xpm", "types");
    std::string ks; for (int k : kinds) ks += std::to_string(k); ctx.outcome("types " + ks);
    ctx.state(mc::Hash()(r)(c)(lo)(hi)(q[0])(q[1])(q[2])(q[3])(sparse)(w));
}

/// large pictures of the elements and of the types
SCENARIO_SHARDED(wide_pictures)
{
    size_t r = ctx.pick(std::vector<size_t>{ 1, 9, 17, 33, 65 }, "rows"), c = ctx.pick(std::vector<size_t>{ 1, 9, 17, 33, 65 }, "columns");
    ctx.shard();
    int what = ctx.choose(2, "type"), p = ctx.choose(3, "content"), hi = ctx.pick(std::vector<int>{ 4, 16, 100 }, "max");
    D<double> m(r, c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = p == 0 ? code(i, j) / 3 * std::pow(10.0, -double((i + j) % 9)) : p == 1 ? ((i / 8 + j / 8) % 3 == 0 ? 1.0 / 3 : (i + j) % 7 ? 0.0 : 1e-9) : double(i == j);
    save(m); { std::ofstream o("s.json"); o << json(pal, hi / 2, hi); }
    D<double> want(r, c); size_t w = what ? p : 0;
    if (what) {
        std::vector<size_t> rs, cs; std::tie(rs, cs) = BlockSizeGenerator(hi / 2, hi)(m);
        BlockedDenseMatrix b = BlockedMatrixGenerator()(m, rs, cs, Threshold());
        size_t ro = 0; for (size_t q = 0; q < rs.size(); ro += rs[q], ++q) { size_t co = 0; for (size_t k = 0; k < cs.size(); co += cs[k], ++k)
            for (size_t i = 0; i < rs[q]; ++i) for (size_t j = 0; j < cs[k]; ++j) want(ro + i, co + j) = i < w || j < w ? 0 : std::pow(10.0, -double(b(q, k)->getTypeIndex())); }
    } else want = m;
    std::remove("p.xpm");
    std::string out; int rc = run(show_program, { "-t", what ? "type-blocks" : "elements", "-s", "s.json", "m.xml", "-p", "p.xpm", "-w", std::to_string(w) }, out); verdict(ctx, rc, out, true, "wide");
    compare(ctx, want, "p.xpm", "wide");
    ctx.state(mc::Hash()("pictures")(r)(c)(what)(p)(hi));
}

/// misuse of the second program
SCENARIO(refused)
{
    static const std::vector<std::vector<std::string>> lines{ { "none.xml" }, {}, { "m.xml", "-t", "blocks" }, { "m.xml", "-s", "broken.json" }, { "m.xml", "-t", "type-blocks", "-s", "odd.json" }, { "m.xml", "-p", "nowhere/p.xpm" }, { "m.xml", "more.xml" }, { "m.xml", "-w" }, { "m.xml", "-w", "wide" }, { "-x" }, { "short.xml" }, { "-h" } };
    D<double> m(2, 3); for (auto& e : m) e = 1; save(m);
    { std::ofstream o("broken.json"); o << "{ \"pattern"; } { std::ofstream o("odd.json"); o << json(pal, 5, 9); }
    { std::ofstream o("short.xml"); o << "<?xml version=\"1.0\"?><MatrixFileSettings><nbRows>9</nbRows><nbColumns>9</nbColumns><rowLeadingDimension>9</rowLeadingDimension><columnLeadingDimension>9</columnLeadingDimension><rowOffset>0</rowOffset><columnOffset>0</columnOffset><filename>m.bin</filename></MatrixFileSettings>"; }
    int k = ctx.choose(int(lines.size()), "line"); std::remove("pattern.xpm");
    std::string out, name; for (auto& t : lines[k]) name += t + " ";
    int rc = run(show_program, lines[k], out);
    bool help = k + 1 == int(lines.size());
    CHECK((rc == 0) == help, "refused:" + name, out);
    CHECK(out.find("successfully finished") == std::string::npos, "refused, reported as success:" + name, out);
    CHECK(!std::ifstream("pattern.xpm"), "refused, file written:" + name, out);
    ctx.outcome(name); ctx.state(mc::Hash()(k));
}

/// what the first program writes the second one reads
SCENARIO_SHARDED(together)
{
    size_t r = ctx.range(1, 5, "rows"), c = ctx.range(1, 5, "columns"), b = ctx.range(0, 6, "band");
    ctx.shard();
    D<double> z(r, c); for (auto& e : z) e = 0; save(z); { std::ofstream o("s.json"); o << json(pal, 200, 1000); }
    std::string out; int rc = run(generate_program, { "-r", std::to_string(r), "-c", std::to_string(c), "-b", std::to_string(b), "-m", "m.bin" }, out); verdict(ctx, rc, out, true, "generate");
    rc = run(show_program, { "-s", "s.json", "m.xml" }, out); verdict(ctx, rc, out, true, "show");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) z(i, j) = (i > j ? i - j : j - i) < b;
    compare(ctx, z, "pattern.xpm", "together"); ctx.state(mc::Hash()(r)(c)(b));
}

} // namespace
