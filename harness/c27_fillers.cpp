// C27: fillers and generators set every element as specified.
#define MC_MAIN
#include "bb.h"
#include <BlasBooster/MatrixFactory/MatrixGenerator.h>
using namespace bb;

namespace {

/// ways to apply a filler
const int ways = 5;
const char* const way_names[] = { "constructed", "resized from empty", "resized from larger", "resized to the same shape", "applied" };
template <class M, class F> M filled(int way, size_t r, size_t c, F const& f)
{
    if (way == 0) return M(r, c, f);
    if (way == 1) { M m; m.resize(r, c, f); return m; }
    if (way == 2) { M m(r + 2, c + 1); m = 77; m.resize(r, c, f); return m; }
    if (way == 3) { M m(r, c); m = 77; m.resize(r, c, f); return m; }
    M m(r, c); m = 77; f(m); return m;
}

template <class T> std::vector<double> fill_values() { return { 0, 1, -3.5, 1e-30, 1e30, 1.0 / 3.0, -0.0 }; }
template <> std::vector<double> fill_values<int>() { return { 0, 1, -3, 1000000 }; }

template <class M> void one(mc::Ctx& ctx, std::string const& tag)
{
    typedef typename M::value_type T;
    const bool cm = std::is_same<typename M::parameter::orientation, ColumnMajor>::value;
    ctx.note(tag);
    int top = ctx.tier(4, 7);
    bool wide = ctx.flag("wide");
    std::pair<size_t, size_t> shape; if (wide) shape = wide_shape(ctx, ctx.tier(4225, 20000)); else { shape.first = ctx.range(0, top, "rows"); shape.second = ctx.range(0, top, "columns"); }
    size_t r = shape.first, c = shape.second;
    ctx.shard();
    int way = ctx.choose(ways, "way"), what = ctx.choose(4, "filler");
    auto where = [&](std::string const& f) { return std::to_string(r) + "x" + std::to_string(c) + " " + f + ", " + way_names[way]; };
    auto test = [&](M const& m, std::string const& f, std::function<T(size_t, size_t)> e) {
        CHECK(m.getNbRows() == r && m.getNbColumns() == c && m.getSize() == r * c && size_t(m.end() - m.begin()) == r * c, "shape:" + tag, where(f));
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
            CHECK(m(i, j) == e(i, j), f + ":" + tag, where(f) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + std::to_string(m(i, j)) + " instead of " + std::to_string(e(i, j)));
    };
    if (what == 0) {
        double x = ctx.pick(fill_values<T>(), "value"); int as = ctx.choose(3, "type of the value");
        if (as == 0) test(filled<M>(way, r, c, AllFiller<T>(T(x))), "AllFiller", [&](size_t, size_t) { return T(x); });
        if (as == 1) test(filled<M>(way, r, c, AllFiller<double>(x)), "AllFiller", [&](size_t, size_t) { return T(x); });
        if (as == 2) test(filled<M>(way, r, c, AllFiller<int>(-7)), "AllFiller", [&](size_t, size_t) { return T(-7); });
    } else if (what == 1) {
        test(filled<M>(way, r, c, ContinuousNumberFiller()), "ContinuousNumberFiller", [&](size_t i, size_t j) { return T(1 + (cm ? i + j * r : i * c + j)); });
    } else if (what == 2) {
        test(filled<M>(way, r, c, HilbertFiller()), "HilbertFiller", [&](size_t i, size_t j) { return T(1) / T(1 + i + j); });
    } else {
        double x = ctx.pick(fill_values<T>(), "value");
        bool thrown = false;
        try { test(filled<M>(way, r, c, DiagonalFiller<double>(x)), "DiagonalFiller", [&](size_t i, size_t j) { return i == j ? T(x) : T(0); }); }
        catch (CoreException const&) { thrown = true; }
        CHECK(thrown == (r != c), "DiagonalFiller refuses:" + tag, where(thrown ? "refused" : "accepted"));
    }
    ctx.outcome("filler " + std::to_string(what)); ctx.state(mc::Hash()(tag)(r)(c)(way)(what));
}
void fd(mc::Ctx& ctx) { one<D<double>>(ctx, "double"); } void ff(mc::Ctx& ctx) { one<D<float>>(ctx, "float"); } void fr(mc::Ctx& ctx) { one<D<double, RM>>(ctx, "double row major"); } void fi(mc::Ctx& ctx) { one<D<int>>(ctx, "int"); } void frf(mc::Ctx& ctx) { one<D<float, RM>>(ctx, "float row major"); }
mc::Register r1("fillers double", fd, true), r2("fillers float", ff, true), r3("fillers row major", fr, true), r4("fillers int", fi, true), r5("fillers float row major", frf, true);

/// fillers on parts of matrices and external memory reach exactly these
SCENARIO_SHARDED(parts)
{
    typedef Matrix<Dense, double, SubCM> V;
    size_t r = ctx.range(0, 3, "rows"), c = ctx.range(0, 3, "columns"), ro = ctx.range(0, 2, "row offset"), co = ctx.range(0, 2, "column offset");
    ctx.shard();
    int what = ctx.choose(3, "filler");
    bool ext = ctx.flag("external memory");
    std::function<double(size_t, size_t)> e;
    if (ext) {
        std::vector<double> mem(r * c + 8, -1.0);
        D<double> m(r, c, mem.data() + 4);
        if (what == 0) { AllFiller<double>(5)(m); e = [](size_t, size_t) { return 5.0; }; }
        if (what == 1) { ContinuousNumberFiller()(m); e = [r](size_t i, size_t j) { return 1.0 + i + j * r; }; }
        if (what == 2) { HilbertFiller()(m); e = [](size_t i, size_t j) { return 1.0 / (1 + i + j); }; }
        for (size_t k = 0; k < mem.size(); ++k)
            CHECK(mem[k] == (k < 4 || k >= 4 + r * c ? -1.0 : e((k - 4) % r, (k - 4) / r)), "external memory", std::to_string(k) + " is " + std::to_string(mem[k]));
    } else {
        D<double> m(r + ro + 1, c + co + 1); m = -1;
        if (r * c == 0 && what != 0) throw mc::Prune();
        V v(m, r, c, ro, co);
        if (what == 0) { AllFiller<double>(5)(v); e = [](size_t, size_t) { return 5.0; }; }
        if (what == 1) { ContinuousNumberFiller()(v); e = [r](size_t i, size_t j) { return 1.0 + i + j * r; }; }
        if (what == 2) { HilbertFiller()(v); e = [](size_t i, size_t j) { return 1.0 / (1 + i + j); }; }
        for (size_t i = 0; i < m.getNbRows(); ++i) for (size_t j = 0; j < m.getNbColumns(); ++j) {
            bool in = i >= ro && i < ro + r && j >= co && j < co + c;
            CHECK(m(i, j) == (in ? e(i - ro, j - co) : -1.0), "part", "filler " + std::to_string(what) + ": (" + std::to_string(i) + "," + std::to_string(j) + ") is " + std::to_string(m(i, j)));
        }
    }
    ctx.outcome("parts"); ctx.state(mc::Hash()(r)(c)(ro)(co)(what)(ext));
}

/// sparse matrices with full storage: canonical and complete
template <class T, class P> void sparse_full(mc::Ctx& ctx)
{
    typedef S<T, P> M;
    const std::string tag = kind<M>(); ctx.note(tag);
    const bool cm = std::is_same<typename P::orientation, ColumnMajor>::value;
    int top = ctx.tier(5, 8);
    bool wide = ctx.flag("wide");
    std::pair<size_t, size_t> shape; if (wide) shape = wide_shape(ctx, ctx.tier(4225, 20000)); else { shape.first = ctx.range(1, top, "rows"); shape.second = ctx.range(1, top, "columns"); }
    size_t r = shape.first, c = shape.second;
    ctx.shard();
    int what = ctx.choose(3, "filler");
    if (what == 0) {
        size_t n = ctx.pick(std::vector<size_t>{ 0, r * c, 1, r * c - 1, r * c + 1, 2 * r * c }, "size");
        if (n && n != r * c) {   // room for fewer or for more: nothing the filler could do
            bool thrown = false;
            if (ctx.flag("on its own")) { M m(r, c, n); try { ContinuousNumberFiller()(m); } catch (CoreException const&) { thrown = true; } }
            else try { M m(r, c, n, ContinuousNumberFiller()); } catch (CoreException const&) { thrown = true; }
            CHECK(thrown, "room:" + tag, std::to_string(r) + "x" + std::to_string(c) + " with " + std::to_string(n) + " significant elements is filled with all numbers");
            ctx.outcome("refused"); return;
        }
        M m(r, c, n, ContinuousNumberFiller());
        if (ctx.flag("again")) ContinuousNumberFiller()(m);
        CHECK(canonical(m) == "", "canonical:" + tag, std::to_string(r) + "x" + std::to_string(c) + ": " + canonical(m));
        CHECK(m.nnz() == r * c, "size:" + tag, std::to_string(m.nnz()));
        for (size_t k = 0; k < r * c; ++k) CHECK(m.begin()[k] == T(k + 1) && m.beginKey()[k] == k % (cm ? r : c), "elements:" + tag, std::to_string(r) + "x" + std::to_string(c));
        D<T, P> d(m);
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) CHECK(d(i, j) == T(1 + (cm ? i + j * r : i * c + j)), "dense elements:" + tag, std::to_string(i) + "," + std::to_string(j));
    } else {
        size_t n = wide ? ctx.pick(std::vector<size_t>{ 1, (r * c + 1) / 2, r * c }, "significant elements") : ctx.range(1, int(r * c), "significant elements");
        double x = ctx.pick(fill_values<T>(), "value");
        M m(r, c, n, AllFiller<double>(x));
        if (what == 2) AllFiller<int>(4)(m);
        CHECK(m.nnz() == n && size_t(m.end() - m.begin()) == n, "size:" + tag, std::to_string(m.nnz()));
        for (T y : m) CHECK(y == (what == 2 ? T(4) : T(x)), "AllFiller:" + tag, std::to_string(y));
    }
    ctx.outcome("sparse"); ctx.state(mc::Hash()(tag)(r)(c)(what));
}
mc::Register s1("sparse double", sparse_full<double, CM>, true), s2("sparse float", sparse_full<float, CM>, true), s3("sparse row major", sparse_full<double, RM>, true);

/// the pseudo random generator: complete, in range, a function of its settings
SCENARIO_SHARDED(generator)
{
    int top = ctx.tier(5, 8);
    bool wide = ctx.flag("wide");
    static const std::vector<size_t> sides{ 1, 8, 9, 17, 33, 65, 128 };
    size_t r = wide ? ctx.pick(sides, "rows") : ctx.range(0, top, "rows"), c = wide ? ctx.pick(sides, "columns") : ctx.range(0, top, "columns");
    if (wide && r * c > 1200) throw mc::Prune();
    ctx.shard();
    static const std::vector<unsigned> seeds{ 0, 1, 2, 42, 12345, 0x7fffffffu, 0xffffffffu };
    unsigned seed = ctx.pick(seeds, "seed");
    auto range = ctx.pick(std::vector<std::pair<double, double>>{ { 0, 9 }, { 0, 1 }, { 2, 3 }, { 5, 5 }, { -3, -1 }, { -2, 2 }, { 0, 300 } }, "exponents");
    double occ = ctx.pick(std::vector<double>{ 1.0, 0.0, 0.5, 0.1, 0.9 }, "occupation");
    MatrixGenerator::Settings s; s.seed = seed; s.minValue = range.first; s.maxValue = range.second; s.occupation = occ;
    MatrixGenerator const g(r, c, s);
    CHECK(g.getNbRows() == r && g.getNbColumns() == c, "generator shape", "");
    D<double> m = g();
    CHECK(m.getNbRows() == r && m.getNbColumns() == c && m.getSize() == r * c && m.end() - m.begin() == long(r * c), "generated shape", "");
    double lo = std::pow(10.0, -range.second), hi = std::pow(10.0, -range.first);
    size_t zeros = 0;
    for (double x : m) {
        if (x == 0.0 && occ < 1.0) { ++zeros; continue; }
        CHECK(std::abs(x) >= lo * (1 - 1e-12) && std::abs(x) <= hi * (1 + 1e-12), "range", std::to_string(x) + " is not within 10^-" + std::to_string(range.second) + " and 10^-" + std::to_string(range.first));
    }
    if (occ == 0.0) CHECK(zeros == r * c, "occupation", std::to_string(r * c - zeros) + " elements differ from zero for an occupation of 0");
    D<double> again = g(), other = MatrixGenerator(r, c, s)();
    CHECK(bb::ref(again) == bb::ref(m) && bb::ref(other) == bb::ref(m), "not reproducible", "");
    {   // through the interface of the factory
        PtrMatrixFactory f(new MatrixGenerator(r, c, s)); CHECK(bb::ref((*f)()) == bb::ref(m) && f->getNbRows() == r && f->getNbColumns() == c, "factory", "");
    }
    if (r * c >= 16 && occ == 1.0) {
        // far beyond chance: some of both signs, and different seeds give different matrices
        bool pos = false, neg = false, differs = range.first == range.second;
        for (unsigned q : seeds) { MatrixGenerator::Settings t = s; t.seed = q; D<double> x = MatrixGenerator(r, c, t)(); for (double y : x) { pos |= y > 0; neg |= y < 0; } if (q != seed && bb::ref(x) != bb::ref(m)) differs = true; }
        CHECK(pos && neg, "signs", "all elements have the same sign for all seeds");
        CHECK(differs, "seed", "the seed has no effect");
    }
    if (r * c >= 16 && (occ == 0.5)) {
        size_t n = 0, all = 0;
        for (unsigned q : seeds) { MatrixGenerator::Settings t = s; t.seed = q; D<double> x = MatrixGenerator(r, c, t)(); for (double y : x) { n += y != 0.0; ++all; } }
        CHECK(n > all / 8 && n < all - all / 8, "occupation", std::to_string(n) + " of " + std::to_string(all) + " elements differ from zero for an occupation of 0.5");
    }
    ctx.outcome("generated"); ctx.state(mc::Hash()(r)(c)(seed)(range.first)(range.second)(occ));
}
SCENARIO(default_generator)
{
    size_t r = ctx.range(0, 6, "rows"), c = ctx.range(0, 6, "columns");
    D<double> m = MatrixGenerator(r, c)();
    MatrixGenerator::Settings s;
    CHECK(s.seed == 0u && s.occupation == 1.0 && s.minValue == 0.0 && s.maxValue == 9.0, "default settings", "");
    CHECK(bb::ref(m) == bb::ref(MatrixGenerator(r, c, s)()), "default settings", "");
    for (double x : m) CHECK(std::abs(x) <= 1.0 && std::abs(x) >= 0.999e-9, "default range", std::to_string(x));
    ctx.outcome("generated"); ctx.state(mc::Hash()(r)(c));
}

} // namespace
