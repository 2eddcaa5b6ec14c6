// C11: blocking partitions the matrix, unblocking reassembles it.
#define MC_MAIN
#include "blocked.h"
using namespace bb;

namespace {

const double d_thr = 1e-10, f_thr = 1e-5;
// settings that make different types admissible
Threshold threshold(int which)
{
    ThresholdSettings s;
    s.set_significanceThresholdDoublePrecision(d_thr).set_significanceThresholdSinglePrecision(f_thr);
    if (which == 1)
        s.set_occupationThresholdMatrixSparseFloatDoublePrecision(0.5).set_occupationThresholdMatrixSparseDoubleSinglePrecision(0.5).set_occupationThresholdMatrixSparseDoubleDoublePrecision(0.5)
         .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(0.5).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(0.75)
         .set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(0.5);
    if (which == 2)   // only dense double and zero
        s.set_occupationThresholdMatrixSparseFloatDoublePrecision(0.0).set_occupationThresholdMatrixDenseFloatDoublePrecision(0.0).set_occupationThresholdMatrixSparseDoubleSinglePrecision(0.0)
         .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(0.0).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(0.0);
    return Threshold(s);
}

template <class T> void block(mc::Ctx& ctx, Ref const& a0, Part const& rp, Part const& cp, int setting, std::string const& tag)
{
    ctx.note(tag);
    Ref a = a0; for (double& x : a.v) x = double(T(x));
    auto src = dense<T>(a);
    Threshold thr = threshold(setting);
    auto where = [&] { return str(a) + " rows " + bb::str(rp) + " columns " + bb::str(cp); };

    BlockedDenseMatrix b = BlockedMatrixGenerator()(src, rp, cp, thr);
    CHECK(bb::ref(src) == a, "source:" + tag, "the source changed");
    CHECK(b.getNbRows() == rp.size() && b.getNbColumns() == cp.size() && b.getSize() == rp.size() * cp.size(), "blocks:" + tag, "number of blocks: " + where());
    CHECK(b.getUnblockedRows() == a.r && b.getUnblockedColumns() == a.c, "unblocked:" + tag, "unblocked dimensions " + std::to_string(b.getUnblockedRows()) + "x" + std::to_string(b.getUnblockedColumns()) + ": " + where());

    Ref seen(a.r, a.c);
    size_t count[7] = { 0, 0, 0, 0, 0, 0, 0 };
    for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) {
        DynamicMatrix m = b(I, J);
        CHECK(bool(m), "null:" + tag, "block is missing: " + where());
        Ref w = window(a, start(rp, I), start(cp, J), rp[I], cp[J]);
        // the block is what the converter makes of the window as a matrix of its own
        DynamicMatrix alone = MatrixConverter()(dense<T>(w), thr);
        CHECK(m->getTypeIndex() == alone->getTypeIndex() && typeid(*m) == typeid(*alone), "type:" + tag, std::string("block has type ") + dyn_names[m->getTypeIndex()] + " instead of " + dyn_names[alone->getTypeIndex()] + ": " + where());
        CHECK(canonical(m).empty(), "canonical:" + tag, canonical(m));
        Ref x = bb::ref(m);
        CHECK(x == bb::ref(alone), "block:" + tag, "block " + std::to_string(I) + "," + std::to_string(J) + " is " + str(x) + " instead of " + str(bb::ref(alone)) + ": " + where());
        CHECK(x.r == w.r && x.c == w.c, "block dim:" + tag, where());
        for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) {
            double e = w(i, j), y = x(i, j);
            CHECK(std::abs(e) > f_thr ? y == e : std::abs(e) > d_thr ? y == e || y == double(float(e)) : y == 0.0 || y == e || y == double(float(e)), "element:" + tag, "element " + std::to_string(e) + " became " + std::to_string(y) + ": " + where());
            seen(start(rp, I) + i, start(cp, J) + j) = y;
        }
        ++count[m->getTypeIndex()];
    }

    // reassembling
    Ref back = bb::ref(D<double>(b));
    CHECK(back == seen, "unblock:" + tag, str(back) + " instead of " + str(seen) + ": " + where());
    Ref backf = bb::ref(D<float>(b));
    CHECK(backf == round_to_float(seen), "unblock to float:" + tag, str(backf) + " instead of " + str(seen) + ": " + where());
    BlockedDenseMatrix copy(b), moved(std::move(copy)), assigned; assigned = moved;
    CHECK(bb::ref(D<double>(moved)) == seen && bb::ref(D<double>(assigned)) == seen, "unblock copy:" + tag, "a copy reassembles differently: " + where());

    // reports
    auto counts = get_type_counting(b);
    for (int t = 0; t < 7; ++t) CHECK(counts[t] == count[t], "counting:" + tag, std::to_string(counts[t]) + " blocks of type " + dyn_names[t] + " instead of " + std::to_string(count[t]));
    TypeMatrix tm = generateTypeMatrix(b); DimensionMatrix dm = generateDimensionMatrix(b);
    CHECK(tm.getNbRows() == rp.size() && tm.getNbColumns() == cp.size() && dm.getNbRows() == rp.size() && dm.getNbColumns() == cp.size(), "report dim:" + tag, where());
    for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) {
        CHECK(tm(I, J) == int(b(I, J)->getTypeIndex()), "type matrix:" + tag, where());
        CHECK(dm(I, J).first == rp[I] && dm(I, J).second == cp[J], "dimension matrix:" + tag, where());
    }
    if (count[4] == 0 && count[5] == 0) {
        NormMatrix nm = generateNormMatrix(b);
        CHECK(nm.getNbRows() == rp.size() && nm.getNbColumns() == cp.size(), "norm matrix dim:" + tag, where());
        for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) {
            double s = 0.0; for (double x : bb::ref(b(I, J)).v) s += x * x;
            CHECK(std::abs(nm(I, J) - std::sqrt(s)) <= 1e-12 * (1.0 + std::sqrt(s)), "norm matrix:" + tag, where());
        }
    }
    CHECK(bb::ref(D<double>(b)) == seen, "changed:" + tag, "reporting changed the blocked matrix");
    ctx.state(mc::Hash()(tag)(hash(a))(bb::str(rp))(bb::str(cp))(setting));
    for (int t = 0; t < 7; ++t) if (count[t]) ctx.outcome(tag + ":" + dyn_names[t]);
}

void both(mc::Ctx& ctx, Ref const& a, Part const& rp, Part const& cp, int setting)
{
    block<double>(ctx, a, rp, cp, setting, "double");
    block<float>(ctx, a, rp, cp, setting, "float");
}

double magnitude(int c) { static const double m[] = { 0.0, 1.0, 1e-8, 1e-13 }; return m[c]; }

// all partitions in both directions, structured magnitude patterns
void partitions(mc::Ctx& ctx)
{
    int n = ctx.tier(4, 6);
    size_t r = ctx.range(0, n, "rows"), c = ctx.range(0, n, "columns");
    ctx.shard();
    auto rp = ctx.pick(compositions(r), "row partition"), cp = ctx.pick(compositions(c), "column partition");
    int p = ctx.choose(12, "magnitudes"), s = ctx.choose(3, "setting");
    Ref a = make(r, c, [&](size_t i, size_t j) {
        int m;
        switch (p) {
        case 0: m = 1; break;
        case 1: m = i == j ? 1 : 0; break;
        case 2: m = i == j ? 1 : 2; break;
        case 3: m = (i + j) % 2 ? 2 : 0; break;
        case 4: m = (i + 2 * j) % 4; break;
        case 5: m = (3 * i + j) % 4; break;
        case 6: m = i < r / 2 ? 1 : 3; break;
        case 7: m = j < c / 2 ? 2 : 0; break;
        case 8: m = (i * j + i) % 3; break;
        case 9: m = i + 1 == r && j + 1 == c ? 1 : 0; break;
        case 10: m = i == 0 ? 1 : 2; break;
        default: m = (i * 5 + j * 3) % 7 == 0 ? 1 : (i + j) % 3 == 0 ? 2 : 0;
        }
        return code(i, j) / 3.0 * magnitude(m);
    });
    both(ctx, a, rp, cp, s);
}
mc::Register r1("partitions", partitions, true);

// large matrices, in even and uneven blocks
std::vector<Part> cuts(size_t n)
{
    std::vector<Part> all{ Part{ n } };
    if (n > 1) { all.push_back(Part{ 1, n - 1 }); all.push_back(Part{ n - 1, 1 }); }
    for (size_t w : { size_t(1), size_t(4), size_t(7), size_t(16), size_t(33) }) if (n > w && n <= 20 * w) { Part p(n / w, w); if (n % w) p.push_back(n % w); all.push_back(p); std::reverse(p.begin(), p.end()); if (n % w) all.push_back(p); }
    return all;
}
void wide(mc::Ctx& ctx)
{
    auto shape = wide_shape(ctx, ctx.tier(2200, 20000)); size_t r = shape.first, c = shape.second;
    if (r * c < 8) throw mc::Prune();
    ctx.shard();
    auto rp = ctx.pick(cuts(r), "row partition"), cp = ctx.pick(cuts(c), "column partition");
    int p = ctx.choose(ctx.tier(2, 4), "magnitudes");
    Ref a = make(r, c, [&](size_t i, size_t j) {
        int m = p == 0 ? 1 : p == 1 ? ((i / 3 + j / 2) % 5 == 0 ? int(i % 3) : i > r / 2 && j % 9 == 0 ? 2 : 0) : p == 2 ? ((3 * i + j) % 4) : (i + 1 == r && j + 1 == c);
        return code(i, j) / 3.0 * magnitude(m);
    });
    both(ctx, a, rp, cp, p % 2);
}
mc::Register r4("wide", wide, true);

// every magnitude assignment of small matrices
void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::pair<size_t, size_t>> sh{ {1, 4}, {4, 1}, {2, 2} };
    static const std::vector<std::pair<size_t, size_t>> sht{ {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2} };
    auto sz = ctx.pick(ctx.thorough() ? sht : sh);
    auto rp = ctx.pick(compositions(sz.first), "row partition"), cp = ctx.pick(compositions(sz.second), "column partition");
    int s = ctx.choose(2, "setting");
    ctx.shard();
    Ref a(sz.first, sz.second);
    for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = code(i, 1) / 3.0 * magnitude(ctx.choose(4, "magnitude"));
    both(ctx, a, rp, cp, s);
}
mc::Register r2("patterns", patterns, true);

// all block type assignments, blocked matrix written by the user
void assembled(mc::Ctx& ctx)
{
    static const std::vector<std::pair<Part, Part>> sh{ {{1}, {2}}, {{2, 1}, {3}}, {{2}, {1, 3}}, {{1, 2}, {2, 1}} };
    auto ps = ctx.pick(sh);
    Part const& rp = ps.first; Part const& cp = ps.second;
    Ref a = make(total(rp), total(cp), code);
    std::vector<std::vector<DynamicMatrix>> m(rp.size(), std::vector<DynamicMatrix>(cp.size()));
    size_t count[7] = { 0, 0, 0, 0, 0, 0, 0 };
    for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) {
        int t = ctx.choose(7, "block type");
        if (I + J == 0) ctx.shard();
        ++count[t];
        Ref w = window(a, start(rp, I), start(cp, J), rp[I], cp[J]);
        if (t == 0) { w = Ref(w.r, w.c); for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) a(start(rp, I) + i, start(cp, J) + j) = 0.0; }
        m[I][J] = dynamic(t, w);
    }
    std::string tag = "assembled";
    ctx.note(tag);
    auto check = [&](BlockedDenseMatrix const& b, std::string const& how) {
        CHECK(bb::ref(D<double>(b)) == a, "unblock:" + how, str(bb::ref(D<double>(b))) + " instead of " + str(a));
        CHECK(bb::ref(D<float>(b)) == a, "unblock to float:" + how, str(bb::ref(D<float>(b))) + " instead of " + str(a));
        auto c = get_type_counting(b);
        for (int t = 0; t < 7; ++t) CHECK(c[t] == count[t], "counting:" + how, dyn_names[t]);
    };
    BlockedDenseMatrix b(rp.size(), cp.size(), a.r, a.c);
    for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) b(I, J) = m[I][J];
    check(b, "element access");
    if (rp.size() == 2 && cp.size() == 2) { BlockedDenseMatrix l{ { m[0][0], m[0][1] }, { m[1][0], m[1][1] } }; CHECK(l.getUnblockedRows() == a.r && l.getUnblockedColumns() == a.c, "unblocked:list", "unblocked dimensions"); check(l, "list"); }
    if (rp.size() == 1 && cp.size() == 2) { BlockedDenseMatrix l{ { m[0][0], m[0][1] } }; check(l, "list"); }
    if (rp.size() == 2 && cp.size() == 1) { BlockedDenseMatrix l{ { m[0][0] }, { m[1][0] } }; check(l, "list"); }
    ctx.state(mc::Hash()(tag)(hash(a))(ctx.prefix));
}
mc::Register r3("assembled", assembled, true);

// lists of block sizes which do not partition the matrix are refused
std::vector<Part> lists(size_t n, size_t longest)
{
    size_t const max = ~size_t(0);
    std::vector<size_t> sizes; for (size_t i = 0; i <= n + 1; ++i) sizes.push_back(i);
    for (size_t i : { max / 2 + 1, max - n + 1, max }) sizes.push_back(i);
    std::vector<Part> all{ Part() }; size_t from = 0;
    for (size_t l = 0; l < longest; ++l) { size_t to = all.size(); for (; from < to; ++from) for (size_t s : sizes) { Part p = all[from]; p.push_back(s); all.push_back(p); } }
    return all;
}
void refused(mc::Ctx& ctx)
{
    size_t r = ctx.range(0, ctx.tier(2, 3), "rows"), c = ctx.range(0, ctx.tier(2, 3), "columns");
    auto rl = lists(r, ctx.tier(2, 3)), cl = lists(c, 2);
    Part rp = ctx.pick(rl, "row blocks");
    ctx.shard();
    Part cp = ctx.pick(cl, "column blocks");
    auto valid = [](Part const& p, size_t n) { for (size_t s : p) { if (s > n) return false; n -= s; } return n == 0; };
    bool ok = valid(rp, r) && valid(cp, c);
    std::string what = std::to_string(r) + "x" + std::to_string(c) + " matrix in row blocks " + bb::str(rp) + ", column blocks " + bb::str(cp);
    Ref a = make(r, c, code);
    auto test = [&](auto const& src, std::string const& tag) {
        try {
            BlockedDenseMatrix b = BlockedMatrixGenerator()(src, rp, cp, threshold(0));
            CHECK(ok, "accepted:" + tag, what + " is accepted");
            CHECK(b.getNbRows() == rp.size() && b.getNbColumns() == cp.size(), "blocks:lists:" + tag, what);
            for (size_t I = 0; I < rp.size(); ++I) for (size_t J = 0; J < cp.size(); ++J) CHECK(bb::ref(b(I, J)) == window(a, start(rp, I), start(cp, J), rp[I], cp[J]), "block:lists:" + tag, what);
            if (rp.size() && cp.size()) CHECK(bb::ref(D<double>(b)) == a, "unblock:lists:" + tag, what);
        } catch (std::exception const& e) { CHECK(!ok, "refused:" + tag, what + " is refused: " + e.what()); }
        CHECK(bb::ref(src) == a, "source:lists:" + tag, "the source changed");
    };
    test(dense<double>(a), "double");
    test(dense<float>(a), "float");
    ctx.outcome(ok ? "lists taken" : "lists refused");
    ctx.state(mc::Hash()("lists")(r)(c)(bb::str(rp))(bb::str(cp)));
}
// blocks put together by the user: converted exactly if they tile the unblocked matrix, refused otherwise
void tiles(mc::Ctx& ctx)
{
    size_t nr = ctx.range(1, 2, "block rows"), nc = ctx.range(1, 2, "block columns");
    size_t ur = ctx.range(0, ctx.tier(2, 3), "unblocked rows"), uc = ctx.range(0, ctx.tier(2, 3), "unblocked columns");
    ctx.shard();
    const int top = nr * nc == 4 ? ctx.tier(1, 2) : 3;
    std::vector<std::pair<size_t, size_t>> dim;
    for (size_t b = 0; b < nr * nc; ++b) { size_t h = ctx.range(0, top, "height"), w = ctx.range(0, top, "width"); dim.push_back({ h, w }); }
    auto at = [&](size_t I, size_t J) { return dim[I * nc + J]; };
    size_t heights = 0; bool ok = true, cover = true;   // rows of blocks without a height need no width
    for (size_t I = 0; I < nr; ++I) {
        size_t widths = 0;
        for (size_t J = 0; J < nc; ++J) { ok = ok && at(I, J).first == at(I, 0).first; widths += at(I, J).second; }
        ok = ok && widths == uc;
        if (at(I, 0).first) cover = cover && widths == uc;
        for (size_t J = 0; J < nc; ++J) cover = cover && at(I, J).first == at(I, 0).first;
        heights += at(I, 0).first;
    }
    ok = ok && heights == ur; cover = cover && heights == ur;
    // nothing has to be written: may be taken as an empty matrix
    const bool empty = cover || ur * uc == 0;
    BlockedDenseMatrix b(nr, nc, ur, uc);
    Ref e(ur, uc);
    size_t i0 = 0;
    std::string what = std::to_string(ur) + "x" + std::to_string(uc) + " of";
    const int t = ctx.choose(2, "type") ? 2 : 3;
    for (size_t I = 0; I < nr; ++I) {
        size_t j0 = 0;
        for (size_t J = 0; J < nc; ++J) {
            Ref w = make(at(I, J).first, at(I, J).second, [&](size_t i, size_t j) { return double(1 + I + 2 * J + 10 * i + 100 * j); });
            b(I, J) = dynamic(t, w);
            if (cover) for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) e(i0 + i, j0 + j) = w(i, j);
            j0 += at(I, J).second;
            what += " " + std::to_string(at(I, J).first) + "x" + std::to_string(at(I, J).second);
        }
        i0 += at(I, 0).first; what += ";";
    }
    auto test = [&](auto x, std::string const& tag) {
        typedef decltype(x) T;
        try {
            D<T> d(b);
            CHECK(ok || empty, "tiles:" + tag, what + " is converted to " + str(bb::ref(d)));
            CHECK(bb::ref(d) == e, "tiles:elements:" + tag, what + " becomes " + str(bb::ref(d)));
        } catch (std::exception const& x) { CHECK(!ok, "tiles:refused:" + tag, what + " is refused: " + x.what()); }
    };
    test(1.0, "double"); test(1.0f, "float");
    ctx.outcome(ok ? "tiles" : empty ? "nothing" : "no tiles");
    ctx.state(mc::Hash()("tiles")(what)(t));
}
mc::Register r6("tiles", tiles, true);
mc::Register r5("refused_lists", refused, true);

} // namespace
