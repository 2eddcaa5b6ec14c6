// C29: printed matrices contain every element at its place.
#define MC_MAIN
#include "blocked.h"
#include <BlasBooster/Core/MatrixIO.h>
#include <iomanip>
using namespace bb;

namespace {

std::vector<std::string> lines(std::string const& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
std::vector<std::string> words(std::string const& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (i >> l) v.push_back(l); return v; }
std::string squeezed(std::string const& s) { std::string t; for (std::string const& w : words(s)) t += (t.empty() ? "" : " ") + w; return t; }
template <class T> bool number(std::string const& w, T x, double accuracy)
{
    char* end; double y = std::strtod(w.c_str(), &end);
    if (w.empty() || *end) return false;
    if (std::isnan(double(x))) return std::isnan(y);
    if (std::isinf(double(x)) || x == T(0)) return y == double(x) && std::signbit(y) == std::signbit(double(x));
    return std::abs(y - double(x)) <= accuracy * std::abs(double(x));
}

/// states the stream may have been left in by others
const int styles = 5;
void style(std::ostream& o, int s)
{
    if (s == 1) { o << std::fixed << std::setprecision(2); }
    if (s == 2) o << std::left << std::setfill('_');
    if (s == 3) { o << std::scientific << std::setprecision(1); }
    if (s == 4) o << std::setprecision(17);
}
template <class X> std::string print(X const& x, bool full, int s)
{
    std::ostringstream o; style(o, s);
    if (full) o << fullprint;
    o << x;
    return o.str();
}

template <class T, class P> void check_dense(mc::Ctx& ctx, D<T, P> const& m, std::string const& out, bool full, std::string const& tag)
{
    auto l = lines(out);
    size_t at = 0;
    auto shown = [&] { return "\n" + out; };
    if (full) {
        CHECK(l.size() > 2 && l[0] == m.name() && squeezed(l[1]) == "Dimension = " + std::to_string(m.getNbRows()) + " x " + std::to_string(m.getNbColumns()), "head:" + tag, shown());
        at = 2;
    }
    std::vector<std::string> body;
    for (; at < l.size(); ++at) body.push_back(l[at]);
    // an empty line, the rows, an empty line
    CHECK(body.size() == m.getNbRows() + 2 && words(body.front()).empty() && words(body.back()).empty(), "lines:" + tag, std::to_string(body.size()) + " lines for " + std::to_string(m.getNbRows()) + " rows" + shown());
    for (size_t i = 0; i < m.getNbRows(); ++i) {
        std::string row = body[i + 1]; std::replace(row.begin(), row.end(), '_', ' ');
        auto w = words(row);
        CHECK(w.size() == m.getNbColumns(), "columns:" + tag, std::to_string(w.size()) + " numbers in row " + std::to_string(i) + shown());
        for (size_t j = 0; j < w.size(); ++j) CHECK(number(w[j], m(i, j), 1e-10), "element:" + tag, "(" + std::to_string(i) + "," + std::to_string(j) + ") is " + std::to_string(m(i, j)) + shown());
    }
}

template <class T> std::vector<double> values() { return { 0.0, -0.0, 1.0, -1.5, 1e-300, -2.5e300, 123456789.125, 1.0 / 3, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() }; }
template <> std::vector<double> values<float>() { return { 0.0, -0.0, 1.0, -1.5, 1e-37, -2.5e37, 1234567.125, 1.0 / 3 }; }
template <> std::vector<double> values<int>() { return { 0.0, 1.0, -7, 123456789 }; }

template <class T, class P> void dense_print(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = M::name() + (std::is_same<typename P::orientation, RowMajor>::value ? " row major" : ""); ctx.note(tag);
    int top = ctx.tier(4, 6);
    size_t r = ctx.range(0, top, "rows"), c = ctx.range(0, top, "columns");
    ctx.shard();
    bool full = ctx.flag("full"); int st = ctx.choose(styles, "style");
    auto v = values<T>();
    int x = ctx.choose(int(v.size()), "value"), at = r * c ? ctx.choose(int(r * c), "at") : 0;
    M m(dense<T, P>(make(r, c, ctx.flag("background") ? poscode : code)));
    if (r * c) m(at / c, at % c) = T(v[x]);
    std::vector<T> before(m.begin(), m.end());
    std::string out = print(m, full, st);
    check_dense(ctx, m, out, full, tag);
    CHECK(before.empty() || std::memcmp(before.data(), m.getDataPointer(), before.size() * sizeof(T)) == 0, "changed:" + tag, "");
    // manipulators: the last one counts, further matrices are printed alike
    std::ostringstream o; style(o, st); o << (full ? shortprint : fullprint) << (full ? fullprint : shortprint) << m; const std::string first = o.str(); o << m; std::string second = o.str().substr(first.size());
    CHECK(first == out, "manipulators:" + tag, first);
    check_dense(ctx, m, second, full, tag);
    DynamicMatrix none; std::ostringstream p; p << none; CHECK(p.str() == "No Matrix found.", "no matrix", p.str());
    ctx.outcome(tag); ctx.state(mc::Hash()(tag)(r)(c)(full)(st)(x)(at));
}
mc::Register d1("dense double", dense_print<double, CM>, true), d2("dense float", dense_print<float, CM>, true), d3("dense row major", dense_print<double, RM>, true), d4("dense int", dense_print<int, CM>, true);

/// windows of a matrix
SCENARIO_SHARDED(windows)
{
    int n = ctx.tier(4, 5);
    size_t R = ctx.range(1, n, "rows"), C = ctx.range(1, n, "columns"); ctx.shard();
    size_t r = ctx.range(1, int(R), "window rows"), c = ctx.range(1, int(C), "window columns"), i = ctx.choose(int(R - r) + 1, "begin row"), j = ctx.choose(int(C - c) + 1, "begin column");
    bool full = ctx.flag("full"); int st = ctx.choose(styles, "style");
    D<double> m(dense<double>(make(R, C, poscode))); Matrix<Dense, double, SubCM> w(m, r, c, i, j);
    D<double> own(r, c); for (size_t k = 0; k < r; ++k) for (size_t l = 0; l < c; ++l) own(k, l) = m(i + k, j + l);
    std::string out = print(w, full, st);
    CHECK(out == print(own, full, st), "window", out + "\ninstead of\n" + print(own, full, st));
    ctx.outcome("window"); ctx.state(mc::Hash()("window")(R)(C)(r)(c)(i)(j)(full)(st));
}

/// up to 100 rows and columns are printed
SCENARIO_SHARDED(large)
{
    size_t r = ctx.pick(std::vector<size_t>{ 0, 1, 99, 100, 101, 150 }, "rows"), c = ctx.pick(std::vector<size_t>{ 0, 1, 2, 99, 100, 101, 1000 }, "columns");
    ctx.shard();
    bool full = ctx.flag("full");
    D<double> m(dense<double>(make(r, c, poscode)));
    std::string out = print(m, full, 0);
    if (r > 100 || c > 100) CHECK(squeezed(out) == "Matrix too large for printing.", "large", out.substr(0, 200));
    else check_dense(ctx, m, out, full, "large");
    ctx.outcome(r > 100 || c > 100 ? "too large" : "printed"); ctx.state(mc::Hash()(r)(c)(full));
}

template <class M> std::string head(M const& m, std::string const& size) { return m.name() + " Size = " + size + " Dimension = " + std::to_string(m.getNbRows()) + " x " + std::to_string(m.getNbColumns()); }
template <class T, class P> void check_sparse(mc::Ctx& ctx, S<T, P> const& m, std::string const& out, std::string const& tag)
{
    auto shown = [&] { return "\n" + out; };
    std::string s = squeezed(out);
    if (m.getSize() > 100) { CHECK(s == "SparseMatrix (Size = " + std::to_string(m.getSize()) + ") too large for printing.", "large:" + tag, shown()); return; }
    std::string h = squeezed(head(m, std::to_string(m.getSize())));
    CHECK(s.compare(0, h.size(), h) == 0, "head:" + tag, shown());
    auto w = words(s.substr(h.size()));
    size_t at = 0;
    auto title = [&](char const* a) { CHECK(at + 3 <= w.size() && w[at] == a && w[at + 1] == "array" && w[at + 2] == "=", "arrays:" + tag, shown()); at += 3; };
    title("Value"); for (auto i = m.begin(); i != m.end(); ++i, ++at) CHECK(at < w.size() && number(w[at], *i, 1e-5), "values:" + tag, shown());
    title("Key"); for (auto i = m.beginKey(); i != m.endKey(); ++i, ++at) CHECK(at < w.size() && w[at] == std::to_string(*i), "keys:" + tag, shown());
    title("Offset"); for (auto i = m.beginOffset(); i != m.endOffset(); ++i, ++at) CHECK(at < w.size() && w[at] == std::to_string(*i), "offsets:" + tag, shown());
    CHECK(at == w.size(), "more than the matrix:" + tag, shown());
}
template <class T, class P> void sparse_print(mc::Ctx& ctx)
{
    const std::string tag = kind<S<T, P>>(); ctx.note(tag);
    size_t r = ctx.range(0, 3, "rows"), c = ctx.range(0, 3, "columns");
    if (r * c > size_t(ctx.tier(6, 9))) throw mc::Prune();
    ctx.shard();
    unsigned long bits = ctx.choose(1 << (r * c), "pattern");
    bool full = ctx.flag("full"); int st = ctx.choose(2, "style") ? 4 : 0;
    S<T, P> m(sparse<T, P>(pattern(r, c, bits)));
    Ref before = bb::ref(m);
    std::string out = print(m, full, st);
    check_sparse(ctx, m, out, tag);
    CHECK(bb::ref(m) == before && canonical(m) == "", "changed:" + tag, "");
    ctx.outcome(tag); ctx.state(mc::Hash()(tag)(r)(c)(bits)(full)(st));
}
mc::Register s1("sparse double", sparse_print<double, CM>, true), s2("sparse float", sparse_print<float, CM>, true), s3("sparse row major", sparse_print<double, RM>, true);
SCENARIO(sparse_large)
{
    auto sh = ctx.pick(std::vector<std::pair<size_t, size_t>>{ { 10, 10 }, { 1, 100 }, { 100, 1 }, { 101, 1 }, { 1, 101 }, { 11, 10 }, { 9, 11 }, { 20, 5 }, { 50, 60 } }, "shape");
    int which = ctx.choose(nb_structured, "pattern");
    S<double> m(sparse<double>(structured(sh.first, sh.second, which)));
    check_sparse(ctx, m, print(m, ctx.flag("full"), 0), "large");
    ctx.outcome(m.getSize() > 100 ? "too large" : "printed"); ctx.state(mc::Hash()(sh.first)(sh.second)(which));
}

/// zero, multiple, dynamic and blocked matrices
std::string expected(DynamicMatrix const& m, bool full, int st)
{
    switch (m->getTypeIndex()) {
    case 0: return print(*cast<Z>(m), full, st);
    case 1: return print(*cast<S<float>>(m), full, st);
    case 2: return print(*cast<D<float>>(m), full, st);
    case 3: return print(*cast<S<double>>(m), full, st);
    case 4: return print(cast<MSS>(m)->getMatrix1(), full, st) + print(cast<MSS>(m)->getMatrix2(), full, st);
    case 5: return print(cast<MSD>(m)->getMatrix1(), full, st) + print(cast<MSD>(m)->getMatrix2(), full, st);
    default: return print(*cast<D<double>>(m), full, st);
    }
}
SCENARIO_SHARDED(dynamic_print)
{
    int t = ctx.choose(7, "type");
    size_t r = ctx.range(1, 3, "rows"), c = ctx.range(1, 3, "columns");
    ctx.shard();
    bool full = ctx.flag("full"); int which = ctx.choose(nb_structured, "pattern"), st = ctx.choose(2, "style") ? 4 : 0;
    ctx.note(dyn_names[t]);
    DynamicMatrix m = dynamic(t, structured(r, c, which));
    Ref before = bb::ref(m);
    std::string out = print(m, full, st);
    CHECK(squeezed(out) == squeezed(expected(m, full, st)), std::string("dynamic:") + dyn_names[t], "\n" + out + "\ninstead of\n" + expected(m, full, st));
    if (t == 0) CHECK(squeezed(out) == squeezed(head(*cast<Z>(m), std::to_string(r * c))), "zero", out);
    if (t == 3) check_sparse(ctx, *cast<S<double>>(m), out, "dynamic");
    if (t == 6) check_dense(ctx, *cast<D<double>>(m), out, full, "dynamic");
    if (t == 4) CHECK(squeezed(print(*cast<MSS>(m), full, st)) == squeezed(out), "multiple", out);
    if (t == 5) CHECK(squeezed(print(*cast<MSD>(m), full, st)) == squeezed(out), "multiple", out);
    CHECK(bb::ref(m) == before, "changed:dynamic", "");
    ctx.outcome(dyn_names[t]); ctx.state(mc::Hash()(t)(r)(c)(full)(which)(st));
}
SCENARIO_SHARDED(blocked_print)
{
    int br = ctx.range(1, 2, "block rows"), bc = ctx.range(1, 3, "block columns");
    ctx.shard();
    BlockedDenseMatrix b(br, bc);
    std::string e; mc::Hash h; h(br)(bc);
    bool full = ctx.flag("full");
    std::vector<DynamicMatrix> blocks;
    for (int i = 0; i < br; ++i) for (int j = 0; j < bc; ++j) { int t = ctx.pick(br * bc > 4 ? std::vector<int>{ 0, 3, 6 } : std::vector<int>{ 0, 1, 3, 5, 6 }, "type"); h(t); blocks.push_back(dynamic(t, pattern(1 + i, 1 + j, 5 + i + j))); b(i, j) = blocks.back(); }
    // the format the elements are printed with is set by the blocked matrix itself
    std::ostringstream o; if (full) o << fullprint; o << b;
    std::ostringstream x; if (full) x << fullprint << "Matrix<Dense,DynamicMatrix>\nDimension = " << br << " x " << bc << "\n";
    x << std::scientific << std::setprecision(10); for (auto const& m : blocks) x << m << " ";
    CHECK(squeezed(o.str()) == squeezed(x.str()), "blocked", "\n" + o.str() + "\ninstead of\n" + x.str());
    ctx.outcome("blocked"); ctx.state(h);
}
SCENARIO_SHARDED(zero_print)
{
    size_t r = ctx.pick(std::vector<size_t>{ 0, 1, 2, 7, 100, 101, 5000 }, "rows"), c = ctx.pick(std::vector<size_t>{ 0, 1, 3, 100, 101, 70000 }, "columns");
    ctx.shard();
    Z m(r, c); bool full = ctx.flag("full");
    CHECK(squeezed(print(m, full, ctx.choose(styles, "style"))) == squeezed(head(m, std::to_string(r * c))), "zero", print(m, full, 0));
    Matrix<Zero, NullType, RM> q(r, c); std::ostringstream o; o << q; CHECK(squeezed(o.str()) == squeezed(head(q, std::to_string(r * c))), "row major zero", o.str());
    std::ostringstream f; MatrixPrintFunctor<Zero, NullType, CM>()(f, m); CHECK(squeezed(f.str()) == squeezed(head(m, std::to_string(r * c))), "zero functor", f.str());
    ctx.outcome("zero"); ctx.state(mc::Hash()(r)(c)(full));
}

} // namespace
