// C39: a file which cannot be written completely is reported (the disk is full after every number of bytes).
#define MC_MAIN
#include "program.h"
#include "xpm.h"
#include "disk.h"
#include "BrainTwister/JSON.h"
#include <BlasBooster/Core/PatternGenerator.h>
#include <BlasBooster/Utilities/BoostSerializePath.h>
#include <BlasBooster/Utilities/FileIO.h>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
extern "C" int generate_program(int, char**);
extern "C" int show_program(int, char**);

namespace {

/// run `write`, which creates the file, on a disk with room for every number of bytes
template <class F> void full_disk(mc::Ctx& ctx, std::string const& file, std::string const& tag, size_t step, F write)
{
    ctx.note(tag);
    std::remove(file.c_str());
    std::string what; CHECK(write(what), "fails without need:" + tag, what);
    const std::string whole = slurp(file); const size_t n = whole.size();
    // every number of bytes, or those around every multiple of the step
    std::vector<size_t> rooms; for (size_t k = 0; k <= n; ++k) if (step == 1 || k % step < 2 || k % step == step - 1 || n - k < 20 || k < 20) rooms.push_back(k);
    size_t room = rooms[ctx.choose(int(rooms.size()), "room")]; bool old = ctx.flag("old file");
    std::remove(file.c_str()); if (old) { std::ofstream o(file); o << std::string(n + 7, 'o'); }
    bool ok; { Disk disk(room); ok = write(what); }
    const std::string now = slurp(file);
    CHECK(ok == (room >= n), (ok ? "success although the disk is full:" : "fails although there is room:") + tag, std::to_string(now.size()) + " of " + std::to_string(n) + " bytes written with room for " + std::to_string(room) + "\n" + what);
    CHECK(!ok || now == whole, "file:" + tag, std::to_string(now.size()) + " of " + std::to_string(n));
    CHECK(!ok || write(what), "fails afterwards:" + tag, what);
    ctx.outcome(tag + (ok ? " written" : " refused")); ctx.state(mc::Hash()(tag)(room)(old)(n));
}
bool finished(int rc, std::string const& out, std::string& what)
{
    what = out; bool said = out.find("successfully finished") != std::string::npos;
    if (said != (rc == 0)) throw mc::Failure{ "last words and status", std::to_string(rc) + "\n" + out };
    return said;
}

void generate(mc::Ctx& ctx)
{
    auto sh = ctx.pick(std::vector<std::pair<size_t, size_t>>{ {0, 3}, {1, 1}, {3, 2}, {16, 8}, {31, 33}, {32, 32}, {40, 70} }, "shape"); std::string type = ctx.pick(std::vector<std::string>{ "band" }, "type");
    ctx.shard();
    full_disk(ctx, "m.dat", "generate", sh.first * sh.second > 200 ? ctx.tier(64, 8) : 1, [&](std::string& what) { std::string out; int rc = run(generate_program, { "-r", std::to_string(sh.first), "-c", std::to_string(sh.second), "-m", "m.dat" }, out); return finished(rc, out, what); });
}

const char* setup = R"({ "pattern_generator_settings": { "palette": [ { "index": "a", "color": "100000", "threshold": 0.5 }, { "index": "b", "color": "200000", "threshold": 1e-5 } ], "background_index": ".", "background_color": "ffffff" }, "blocked_matrix_generator_settings": { "min_block_size": 1, "max_block_size": 3 } })";
void save(D<double> const& m)
{
    std::ofstream o("m.bin", std::ios::binary); if (m.getSize()) o.write(reinterpret_cast<char const*>(&*m.begin()), m.getSize() * sizeof(double));
    auto f = [](char const* n, size_t x) { return std::string("<") + n + ">" + std::to_string(x) + "</" + n + ">"; };
    std::ofstream x("m.xml");
    x << "<?xml version=\"1.0\"?><MatrixFileSettings>" + f("nbRows", m.getNbRows()) + f("nbColumns", m.getNbColumns()) + f("rowLeadingDimension", m.getNbRows()) + f("columnLeadingDimension", m.getNbColumns()) + f("rowOffset", 0) + f("columnOffset", 0) + "<filename>m.bin</filename></MatrixFileSettings>";
}
D<double> picture(size_t r, size_t c) { D<double> m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = (i + 2 * j) % 3 == 0 ? 1.0 : (i * j) % 2 ? 1e-3 : 0.0; return m; }
static const std::vector<std::pair<size_t, size_t>> pictures{ {0, 0}, {1, 1}, {2, 3}, {9, 4}, {70, 130} };
void show(mc::Ctx& ctx)
{
    auto sh = ctx.pick(pictures, "shape"); std::string type = ctx.pick(std::vector<std::string>{ "elements", "type-blocks" }, "type");
    if (type == "type-blocks" && (sh.first * sh.second == 0 || sh.first > 60)) throw mc::Prune();
    ctx.shard();
    save(picture(sh.first, sh.second)); { std::ofstream s("s.json"); s << setup; }
    full_disk(ctx, "p.xpm", "show " + type, sh.first > 60 ? ctx.tier(64, 4) : 1, [&](std::string& what) { std::string out; int rc = run(show_program, { "m.xml", "-s", "s.json", "-p", "p.xpm", "-t", type }, out); return finished(rc, out, what); });
}
void pattern(mc::Ctx& ctx)
{
    auto sh = ctx.pick(pictures, "shape"); ctx.shard();
    D<double> m = picture(sh.first, sh.second);
    PatternGenerator::Settings s{ JSON{ std::string(R"({ "palette": [ { "index": "a", "color": "100000", "threshold": 0.5 }, { "index": "b", "color": "200000", "threshold": 1e-5 } ], "background_index": ".", "background_color": "ffffff" })") } };
    PatternGenerator p(s);
    full_disk(ctx, "p.xpm", "pattern", sh.first > 60 ? ctx.tier(16, 2) : 1, [&](std::string& what) { try { p(m, "p.xpm"); } catch (std::exception const& e) { what = e.what(); return false; } return true; });
}
template <class X> void files(mc::Ctx& ctx, X x, std::string const& name, size_t step)
{
    bool xml = ctx.flag("xml"); bool said = ctx.flag("overwrite given");
    full_disk(ctx, "f", (xml ? "writeXML " : "writeBinary ") + name, step, [&](std::string& what) {
        try { if (xml) { if (said) writeXML(x, "value", "f", true); else writeXML(x, "value", "f"); } else if (said) writeBinary(x, "value", "f", true); else writeBinary(x, "value", "f"); } catch (std::exception const& e) { what = e.what(); return false; }
        return true;
    });
}
void all_files(mc::Ctx& ctx)
{
    int k = ctx.choose(7, "value"); ctx.shard();
    switch (k) {
        case 0: files(ctx, 1.5, "double", 1); break;
        case 1: files(ctx, 42, "int", 1); break;
        case 2: files(ctx, std::string("a <b>"), "string", 1); break;
        case 3: files(ctx, boost::filesystem::path("a/b c"), "path", 1); break;
        case 4: files(ctx, std::vector<double>{ 1.0 / 3, -2.0, 1e300 }, "vector", 1); break;
        case 5: files(ctx, std::string(20000, 'z'), "long string", ctx.tier(64, 2)); break;
        default: files(ctx, std::vector<double>(1500, 1.0 / 3), "long vector", ctx.tier(64, 4)); break;
    }
}
mc::Register g1("generate", generate, true), s1("show", show, true), p1("pattern", pattern, true), f1("files", all_files, true);

} // namespace
