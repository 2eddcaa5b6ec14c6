// C22: importing a matrix reproduces the file or fails, at every truncation point.
#define MC_MAIN
#include "bb.h"
#include <BlasBooster/MatrixFactory/MatrixFileImporter.h>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace bb;

namespace {

void write(std::string const& name, std::string const& bytes) { std::ofstream o(name, std::ios::binary); o.write(bytes.data(), std::streamsize(bytes.size())); }
template <class T> T element(size_t i, size_t j) { return T(code(i, j) + 100); }
/// bytes of a column-major file of ldr x ldc elements, followed by `trail` further bytes
template <class T> std::string bytes(size_t ldr, size_t ldc, size_t trail)
{
    std::string s;
    for (size_t j = 0; j < ldc; ++j) for (size_t i = 0; i < ldr; ++i) { T x = element<T>(i, j); s.append(reinterpret_cast<char const*>(&x), sizeof(T)); }
    return s + std::string(trail, char(0x5a));
}
std::string field(std::string const& n, std::string const& v) { return "  <" + n + ">" + v + "</" + n + ">\n"; }
std::string field(std::string const& n, size_t v) { return field(n, std::to_string(v)); }
std::string xml(size_t r, size_t c, size_t ldr, size_t ldc, size_t ro, size_t co, std::string const& file)
{
    return "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<MatrixFileSettings>\n" + field("nbRows", r) + field("nbColumns", c) + field("rowLeadingDimension", ldr) + field("columnLeadingDimension", ldc)
        + field("rowOffset", ro) + field("columnOffset", co) + field("filename", file) + "</MatrixFileSettings>\n";
}

/// ways to get hold of a matrix: read into a stream target (empty, other or same shape, larger) or construct it from the file
const int ways = 5;
const char* const way_names[] = { "construct", "into empty", "into other shape", "into same shape", "into larger" };
template <class M> bool import(int way, std::string const& settings, size_t r, size_t c, std::unique_ptr<M>& m, std::string& what)
{
    try {
        if (way == 0) { m.reset(new M(filesystem::path(settings))); return true; }
        if (way == 1) m.reset(new M());
        if (way == 2) m.reset(new M(1, 2, AllFiller<double>(-5)));
        if (way == 3) m.reset(new M(r, c, AllFiller<double>(-5)));
        if (way == 4) m.reset(new M(r + 3, c + 3, AllFiller<double>(-5)));
        std::ifstream is(settings);
        if (!is) { what = "no settings"; return false; }
        is >> *m;
        return true;
    } catch (std::exception const& e) { what = e.what(); return false; }
}

template <class T, class P> void body(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<D<double, P>>() == "Dense<double>" ? "column major" : "row major";
    int top = ctx.tier(2, 3);
    size_t r = ctx.range(0, top, "rows"), c = ctx.range(0, top, "columns");
    size_t er = ctx.range(0, 2, "extra rows"), ec = ctx.range(0, 2, "extra columns");
    size_t ro = ctx.range(0, int(er), "row offset"), co = ctx.range(0, int(ec), "column offset");
    ctx.shard();
    size_t trail = ctx.pick(std::vector<size_t>{ 0, 1, sizeof(T) }, "trailing bytes");
    const size_t ldr = r + er, ldc = c + ec;
    int way = ctx.choose(ways, "way");
    const std::string full = bytes<T>(ldr, ldc, trail);
    // the last byte which belongs to an element of the matrix
    const size_t need = r && c ? ((co + c - 1) * ldr + ro + r) * sizeof(T) : 0;
    size_t len = ctx.choose(int(full.size()) + 1, "length of the file");
    ctx.note(tag);
    write("m.bin", full.substr(0, len));
    write("m.xml", xml(r, c, ldr, ldc, ro, co, "m.bin"));
    std::unique_ptr<M> m; std::string what;
    bool ok = import<M>(way, "m.xml", r, c, m, what);
    auto where = [&] { return std::string(way_names[way]) + ": " + std::to_string(r) + "x" + std::to_string(c) + " at (" + std::to_string(ro) + "," + std::to_string(co) + ") of " + std::to_string(ldr) + "x" + std::to_string(ldc) + ", file of " + std::to_string(len) + " bytes of which " + std::to_string(need) + " are needed"; };
    CHECK(ok || len < need, "rejected:" + tag, where() + ": " + what);
    CHECK(!ok || len >= need, "truncated:" + tag, where() + " is accepted as " + (ok ? str(bb::ref(*m)) : ""));
    ctx.outcome(ok ? "read" : "rejected");
    if (ok) {
        Ref e = make(r, c, [&](size_t i, size_t j) { return double(element<T>(ro + i, co + j)); });
        CHECK(m->getNbRows() == r && m->getNbColumns() == c && m->getSize() == r * c && size_t(m->end() - m->begin()) == r * c, "dimension:" + tag, where());
        CHECK(bb::ref(*m) == e, "elements:" + tag, where() + ": " + str(bb::ref(*m)) + " instead of " + str(e));
        M copy(*m); CHECK(bb::ref(copy) == e, "copy:" + tag, where());
    } else if (m) {   // the target of a failed import is still a matrix
        M n(dense<T, P>(make(2, 2, code)));
        *m = n; CHECK(bb::ref(*m) == make(2, 2, code), "afterwards:" + tag, where());
    }
    ctx.state(mc::Hash()(r)(c)(er)(ec)(ro)(co)(trail)(way)(len)(tag));
}
mc::Register b1("binary double", body<double, CM>, true), b2("binary float", body<float, CM>, true), b3("binary double row major", body<double, RM>, true), b4("binary int", body<int, CM>, true), b5("binary float row major", body<float, RM>, true);

/// large matrices and files, cut off at and around the last element of every column
template <class T, class P> void wide(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<D<double, P>>() == "Dense<double>" ? "column major" : "row major";
    auto shape = wide_shape(ctx, 2200); size_t r = shape.first, c = shape.second;
    ctx.shard();
    size_t er = ctx.pick(std::vector<size_t>{ 0, 1, 5 }, "extra rows"), ec = ctx.pick(std::vector<size_t>{ 0, 3 }, "extra columns");
    size_t ro = ctx.flag("first row") ? 0 : er, co = ctx.flag("first column") ? 0 : ec;
    const size_t ldr = r + er, ldc = c + ec;
    const std::string full = bytes<T>(ldr, ldc, 0);
    const size_t need = ((co + c - 1) * ldr + ro + r) * sizeof(T);
    int cutting = ctx.choose(5, "cut");
    size_t len = cutting == 0 ? full.size() : cutting == 1 ? need : cutting == 2 ? need - 1 : cutting == 3 ? need - sizeof(T) : need / 2;
    ctx.note(tag);
    write("m.bin", full.substr(0, len));
    write("m.xml", xml(r, c, ldr, ldc, ro, co, "m.bin"));
    int way = ctx.choose(2, "way") ? 3 : 0;
    std::unique_ptr<M> m; std::string what;
    bool ok = import<M>(way, "m.xml", r, c, m, what);
    auto where = [&] { return std::string(way_names[way]) + ": " + std::to_string(r) + "x" + std::to_string(c) + " at (" + std::to_string(ro) + "," + std::to_string(co) + ") of " + std::to_string(ldr) + "x" + std::to_string(ldc) + ", file of " + std::to_string(len) + " bytes of which " + std::to_string(need) + " are needed"; };
    CHECK(ok == (len >= need), (ok ? "truncated:" : "rejected:") + tag, where() + ": " + what);
    if (ok) {
        Ref e = make(r, c, [&](size_t i, size_t j) { return double(element<T>(ro + i, co + j)); });
        CHECK(m->getNbRows() == r && m->getNbColumns() == c && bb::ref(*m) == e, "elements:" + tag, where());
    }
    ctx.outcome(ok ? "read" : "rejected");
    ctx.state(mc::Hash()("wide")(tag)(sizeof(T))(r)(c)(er)(ec)(ro)(co)(way)(len));
}
mc::Register w1("wide double", wide<double, CM>, true), w2("wide float", wide<float, CM>, true), w3("wide double row major", wide<double, RM>, true), w4("wide float row major", wide<float, RM>, true);

/// windows far behind the beginning of a file with holes: positions beyond 16, 31, 32 and 33 bits
template <class T, class P> void far(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<D<double, P>>() == "Dense<double>" ? "column major" : "row major";
    const size_t ldr = ctx.pick(std::vector<size_t>{ 300, 70000, size_t(1) << 29, (size_t(1) << 31) + 5, (size_t(1) << 32) + 1 }, "row leading dimension");
    ctx.shard();
    size_t r = ctx.range(1, 3, "rows"), c = ctx.range(1, 3, "columns");
    size_t ro = ctx.pick(std::vector<size_t>{ 0, 1, 257, 66000, (size_t(1) << 31) + 1, ldr - r }, "row offset"), co = ctx.pick(std::vector<size_t>{ 0, 1, 2, 260, 40000, 70001 }, "column offset");
    if (ro + r > ldr) throw mc::Prune();
    const size_t ldc = co + c + ctx.choose(2, "extra columns");
    const size_t need = ((co + c - 1) * ldr + ro + r) * sizeof(T);
    if (need > size_t(1) << 38) throw mc::Prune();
    const size_t len = need - (ctx.flag("too short") ? 1 : 0);
    ctx.note(tag);
    unlink("far.bin");
    {
        std::ofstream o("far.bin", std::ios::binary);
        for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) { T x = element<T>(i, j); o.seekp(std::streamoff(((co + j) * ldr + ro + i) * sizeof(T))); o.write(reinterpret_cast<char const*>(&x), sizeof(T)); }
        o.flush();
        if (!o || truncate("far.bin", off_t(len)) != 0) { unlink("far.bin"); ctx.outcome("the file system has no such files"); return; }
    }
    write("m.xml", xml(r, c, ldr, ldc, ro, co, "far.bin"));
    std::unique_ptr<M> m; std::string what;
    bool ok = import<M>(ctx.choose(2, "way") ? 4 : 0, "m.xml", r, c, m, what);
    unlink("far.bin");
    auto where = [&] { return std::to_string(r) + "x" + std::to_string(c) + " at (" + std::to_string(ro) + "," + std::to_string(co) + ") of " + std::to_string(ldr) + "x" + std::to_string(ldc) + ", file of " + std::to_string(len) + " bytes of which " + std::to_string(need) + " are needed"; };
    CHECK(ok == (len >= need), (ok ? "truncated:" : "rejected:") + tag, where() + ": " + what);
    if (ok) {
        Ref e = make(r, c, [&](size_t i, size_t j) { return double(element<T>(i, j)); });
        CHECK(m->getNbRows() == r && m->getNbColumns() == c && bb::ref(*m) == e, "elements:" + tag, where() + ": " + str(bb::ref(*m)) + " instead of " + str(e));
    }
    ctx.outcome(ok ? "read" : "rejected");
    ctx.state(mc::Hash()("far")(tag)(sizeof(T))(r)(c)(ldr)(ldc)(ro)(co)(len));
}
mc::Register f1("far double", far<double, CM>, true), f2("far float row major", far<float, RM>, true), f3("far float", far<float, CM>, true);

SCENARIO_SHARDED(wide_importer)
{
    auto shape = wide_shape(ctx, 4225); size_t r = shape.first, c = shape.second;
    ctx.shard();
    const std::string full = bytes<double>(r, c, 0);
    size_t len = full.size() - ctx.pick(std::vector<size_t>{ 0, 1, 8 }, "missing");
    write("m.bin", full.substr(0, len)); write("m.txt", std::to_string(r) + " " + std::to_string(c) + " m.bin\n");
    bool ok = true; std::unique_ptr<D<double>> m;
    try { MatrixFileImporter const imp("m.txt"); m.reset(new D<double>(imp())); } catch (std::exception const&) { ok = false; }
    CHECK(ok == (len == full.size()), ok ? "importer accepts" : "importer rejects", std::to_string(r) + "x" + std::to_string(c));
    if (ok) CHECK(bb::ref(*m) == make(r, c, [](size_t i, size_t j) { return element<double>(i, j); }), "importer elements", std::to_string(r) + "x" + std::to_string(c));
    ctx.outcome(ok ? "read" : "rejected"); ctx.state(mc::Hash()("wide importer")(r)(c)(len));
}

/// settings which contradict each other, lack or repeat entries, or are cut off anywhere
SCENARIO_SHARDED(settings)
{
    typedef D<double> M;
    int r = ctx.range(0, 3, "rows"), c = ctx.range(0, 3, "columns");
    size_t ldr = ctx.pick(std::vector<size_t>{ 0, 1, 2, 3, 4, 6 }, "row leading dimension"), ldc = ctx.pick(std::vector<size_t>{ 0, 1, 2, 3, 4, 6 }, "column leading dimension");
    ctx.shard();
    const size_t huge = std::numeric_limits<size_t>::max();
    size_t ro = ctx.pick(std::vector<size_t>{ 0, 1, 3, 5, huge, huge - 1, huge - 2 }, "row offset"), co = ctx.pick(std::vector<size_t>{ 0, 1, 3, 5, huge, huge - 1, huge - 2 }, "column offset");
    int way = ctx.choose(ways, "way");
    write("m.bin", bytes<double>(ldr, ldc, 64));
    write("m.xml", xml(r, c, ldr, ldc, ro, co, "m.bin"));
    std::unique_ptr<M> m; std::string what;
    bool ok = import<M>(way, "m.xml", r, c, m, what);
    bool fits = ro <= ldr && size_t(r) <= ldr - ro && co <= ldc && size_t(c) <= ldc - co;
    auto where = [&] { return std::to_string(r) + "x" + std::to_string(c) + " at (" + std::to_string(ro) + "," + std::to_string(co) + ") of " + std::to_string(ldr) + "x" + std::to_string(ldc); };
    CHECK(ok == fits, fits ? "good settings rejected" : "contradicting settings accepted", where() + " " + what);
    if (ok) CHECK(bb::ref(*m) == make(r, c, [&](size_t i, size_t j) { return element<double>(ro + i, co + j); }), "settings", where() + ": " + str(bb::ref(*m)));
    ctx.outcome(ok ? "read" : "rejected");
    ctx.state(mc::Hash()(r)(c)(ldr)(ldc)(ro)(co)(way));
}

SCENARIO_SHARDED(cut_settings)
{
    typedef D<double> M;
    const std::string good = xml(2, 3, 2, 3, 0, 0, "m.bin");
    size_t len = ctx.choose(int(good.size()) + 1, "length");
    ctx.shard();
    int way = ctx.choose(ways, "way");
    int hole = ctx.choose(3, "hole");   // cut off, first half missing, or one byte missing
    std::string s = hole == 0 ? good.substr(0, len) : hole == 1 ? good.substr(len) : good.substr(0, len) + (len < good.size() ? good.substr(len + 1) : "");
    write("m.bin", bytes<double>(2, 3, 0));
    write("m.xml", s);
    std::unique_ptr<M> m; std::string what;
    bool ok = import<M>(way, "m.xml", 2, 3, m, what);
    Ref e = make(2, 3, [](size_t i, size_t j) { return element<double>(i, j); });
    // white space may be missing; anything else makes the file malformed or another one
    const std::string trimmed = [&] { std::string t = s; while (!t.empty() && (t.back() == '\n' || t.back() == ' ')) t.pop_back(); return t + "\n"; }();
    if (hole == 0 && trimmed == good) CHECK(ok, "good settings rejected", what);
    if (hole == 0 && trimmed != good) CHECK(!ok, "cut settings accepted", "settings cut to " + std::to_string(len) + " bytes yield " + (ok ? str(bb::ref(*m)) : ""));
    // how entries are named and what missing ones mean is up to the record library; the matrix must merely be one
    if (ok) CHECK((m->getNbRows() <= 23 && m->getNbColumns() <= 23 && size_t(m->end() - m->begin()) == m->getNbRows() * m->getNbColumns()), "malformed settings", "hole " + std::to_string(hole) + " at " + std::to_string(len) + " yields " + std::to_string(m->getNbRows()) + "x" + std::to_string(m->getNbColumns()) + " from\n" + s);
    if (ok && m->getNbRows() == 2 && m->getNbColumns() == 3) CHECK((bb::ref(*m) == e), "malformed settings elements", "hole " + std::to_string(hole) + " at " + std::to_string(len) + " yields " + str(bb::ref(*m)) + " from\n" + s);
    ctx.outcome(ok ? "read" : "rejected");
    ctx.state(mc::Hash()(len)(way)(hole));
}

/// files which are not there, or are directories
SCENARIO_SHARDED(missing)
{
    typedef D<double> M;
    int r = ctx.range(0, 2, "rows"), c = ctx.range(0, 2, "columns");
    int way = ctx.choose(ways, "way");
    ctx.shard();
    std::string data = ctx.pick(std::vector<std::string>{ "", "nothing.bin", "dir", "nodir/m.bin" }, "data file");
    ::mkdir("dir", 0700);
    write("m.xml", xml(r, c, r, c, 0, 0, data));
    std::string file = ctx.pick(std::vector<std::string>{ "m.xml", "nothing.xml", "dir", "" }, "settings file");
    std::unique_ptr<M> m; std::string what;
    bool ok = import<M>(way, file, r, c, m, what);
    if (file != "m.xml" || data != "dir" || (r && c)) CHECK(!ok, "missing file accepted", "settings '" + file + "', data '" + data + "' yield " + (ok ? str(bb::ref(*m)) : ""));
    if (file == "m.xml" && data != "dir") {   // the message names the file
        CHECK(what.find(data) != std::string::npos, "message", what);
    }
    ctx.outcome(ok ? "read" : "rejected");
    ctx.state(mc::Hash()(r)(c)(way)(data)(file));
}

/// dimensions whose product overflows do not fit into any file
SCENARIO_SHARDED(huge)
{
    typedef D<double> M;
    const std::vector<size_t> dims{ 1, 2, 8, size_t(1) << 29, size_t(1) << 31, size_t(1) << 32, size_t(1) << 60, size_t(1) << 61, size_t(1) << 62, size_t(1) << 63, ~size_t(0), ~size_t(0) / 8, ~size_t(0) / 8 + 1, ~size_t(0) / 2 + 1 };
    size_t r = ctx.pick(dims, "rows"), c = ctx.pick(dims, "columns");
    ctx.shard();
    int way = ctx.choose(3, "way");
    __uint128_t n = __uint128_t(r) * c;
    if (n < 4096 || (n > (size_t(1) << 28) && n < (size_t(1) << 45))) throw mc::Prune();   // fits, or merely a lot of memory
    write("m.bin", std::string(64, 'x'));
    bool ok = true; std::string what;
    std::unique_ptr<M> m;
    if (way == 2) {
        write("m.txt", std::to_string(r) + " " + std::to_string(c) + " m.bin");
        try { m.reset(new M(MatrixFileImporter("m.txt")())); } catch (std::exception const& e) { ok = false; what = e.what(); }
    } else {
        write("m.xml", xml(r, c, r, c, 0, 0, "m.bin"));
        ok = import<M>(way, "m.xml", 0, 0, m, what);
    }
    CHECK(!ok, way == 2 ? "importer overflow" : "overflow", std::to_string(r) + "x" + std::to_string(c) + " is read from 64 bytes, as a matrix of " + std::to_string(m->end() - m->begin()) + " elements");
    ctx.outcome("rejected");
    ctx.state(mc::Hash()(r)(c)(way));
}

/// the importer of the matrix factory: text header, binary data
SCENARIO_SHARDED(importer)
{
    int top = ctx.tier(4, 6);
    size_t r = ctx.range(0, top, "rows"), c = ctx.range(0, top, "columns");
    ctx.shard();
    size_t trail = ctx.pick(std::vector<size_t>{ 0, 1, 8 }, "trailing bytes");
    std::string sep = ctx.pick(std::vector<std::string>{ " ", "\n", "\t  \n" }, "separator");
    const std::string full = bytes<double>(r, c, trail), header = std::to_string(r) + sep + std::to_string(c) + sep + (ctx.flag("quoted") ? "\"m.bin\"" : "m.bin") + "\n";
    const size_t need = r * c * sizeof(double);
    bool cut_header = ctx.flag("cut header");
    size_t len = cut_header ? full.size() : ctx.choose(int(full.size()) + 1, "length"), hlen = cut_header ? ctx.choose(int(header.size()) - 1, "header length") : header.size();
    write("m.bin", full.substr(0, len));
    write("m.txt", header.substr(0, hlen));
    auto where = [&] { return std::to_string(r) + "x" + std::to_string(c) + ", " + std::to_string(len) + " of " + std::to_string(need) + " bytes, header of " + std::to_string(hlen) + " of " + std::to_string(header.size()) + " bytes"; };
    bool ok = true; std::string what; std::unique_ptr<D<double>> m;
    try {
        MatrixFileImporter const imp("m.txt");
        if (!cut_header) CHECK(imp.getNbRows() == r && imp.getNbColumns() == c, "importer dimension", where());
        m.reset(new D<double>(imp()));
        if (ctx.flag("again")) { D<double> n = imp(); CHECK(bb::ref(n) == bb::ref(*m), "importer twice", where()); }
    } catch (std::exception const& e) { ok = false; what = e.what(); }
    CHECK(ok == (!cut_header && len >= need), ok ? "importer accepts" : "importer rejects", where() + " " + what);
    if (ok) CHECK(bb::ref(*m) == make(r, c, [](size_t i, size_t j) { return element<double>(i, j); }), "importer elements", where() + ": " + str(bb::ref(*m)));
    ctx.outcome(ok ? "read" : "rejected");
    ctx.state(mc::Hash()(r)(c)(trail)(sep)(len)(hlen));
}

SCENARIO(bad_importer)
{
    std::string header = ctx.pick(std::vector<std::string>{ "", "2", "2 2", "a 2 m.bin", "2 b m.bin", "2 2 nothing.bin", "2 2 dir", "2x2 m.bin", "2.5 2 m.bin", "m.bin 2 2", "-1 2 m.bin", "2 -1 m.bin", "-1 -1 m.bin", "99999999999999999999999 1 m.bin" }, "header");
    bool there = ctx.flag("there");
    ::mkdir("dir", 0700);
    write("m.bin", bytes<double>(2, 2, 0));
    ::unlink("h.txt"); if (there) write("h.txt", header);
    bool ok = true;
    try { MatrixFileImporter imp("h.txt"); imp(); } catch (std::exception const&) { ok = false; }
    CHECK(!ok, "importer accepts malformed header", "'" + header + "'" + (there ? "" : " (not there)"));
    ctx.outcome("rejected"); ctx.state(mc::Hash()(header)(there));
}

} // namespace
