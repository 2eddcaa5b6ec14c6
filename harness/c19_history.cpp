// C19: matrices behave as values with consistent dimensions in every history.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "universe.h"
#include "blocked.h"
using namespace bb;

namespace {

std::string text(std::vector<std::string const*> const& h) { std::string s; for (auto x : h) s += (s.empty() ? "" : ", ") + *x; return s; }

/// dimensions, getSize(), storage and elements agree with each other and with the reference
template <class M> void inspect(mc::Ctx& ctx, M const& m, Ref const& a, std::string const& tag, std::string const& who, std::vector<std::string const*> const& h)
{
    CHECK(m.getNbRows() == a.r && m.getNbColumns() == a.c, "dimension:" + tag, who + " is " + std::to_string(m.getNbRows()) + "x" + std::to_string(m.getNbColumns()) + " instead of " + str(a) + " after " + text(h));
    CHECK(m.getSize() == a.r * a.c, "size:" + tag, "getSize() of " + who + " is " + std::to_string(m.getSize()) + " instead of " + std::to_string(a.r * a.c) + " after " + text(h));
    if constexpr (is_dense<M>::value) {
        CHECK(size_t(m.end() - m.begin()) == a.r * a.c, "storage:" + tag, who + " stores " + std::to_string(m.end() - m.begin()) + " elements instead of " + std::to_string(a.r * a.c) + " after " + text(h));
        CHECK(m.getLdRows() == a.r && m.getLdColumns() == a.c, "leading dimension:" + tag, who + " after " + text(h));
    }
    if constexpr (is_sparse<M>::value) {
        if (m.sizeOffset() == 0) CHECK(a.v.empty() && m.nnz() == 0, "storage:" + tag, who + " has no offsets after " + text(h));
        else { std::string c = canonical(m); CHECK(c.empty(), "storage:" + tag, who + ": " + c + " after " + text(h)); }
    }
    CHECK(bb::ref(m) == a, "value:" + tag, who + " is " + str(bb::ref(m)) + " instead of " + str(a) + " after " + text(h));
}

template <class M> void more(std::vector<Op<M>>& ops, size_t n)
{
    typedef Universe<M> U;
    auto def = [&](std::string const& name, std::function<bool(U&)> f) { ops.push_back({ name, f }); };
    for (size_t i = 0; i < n; ++i) {
        std::string I = "m" + std::to_string(i);
        if constexpr (is_dense<M>::value) {
            def(I + " element written", [i](U& u) { if (!u.live(i) || u.s[i].r.v.empty()) return false; Ref& a = u.s[i].r; (*u.s[i].m)(a.r - 1, 0) = 9; a(a.r - 1, 0) = 9; return true; });
            def(I + " constructed from list", [i](U& u) { if (u.there(i)) return false; u.s[i].m.reset(new M({ { 1, 2, 3 }, { 4, 5, 6 } })); u.s[i].r = make(2, 3, [](size_t i, size_t j) { return double(1 + i * 3 + j); }); u.s[i].life = Live; return true; });
            def(I + " constructed with filler", [i](U& u) { if (u.there(i)) return false; u.s[i].m.reset(new M(1, 2, AllFiller<typename M::value_type>(7))); u.s[i].r = Ref(1, 2, 7.0); u.s[i].life = Live; return true; });
        }
        if constexpr (is_sparse<M>::value)
            def(I + " element written", [i](U& u) { if (!u.live(i) || u.s[i].m->nnz() == 0) return false; M& m = *u.s[i].m; m.begin()[0] = 9; u.s[i].r = bb::ref(m); size_t k = 0; for (double x : u.s[i].r.v) k += x == 9; if (k < 1) throw mc::Failure{ "element write", "lost" }; return true; });
    }
}

template <class M, int N, int Depth> void explore(mc::Ctx& ctx)
{
    static const std::vector<Op<M>> ops = [] { auto o = operations<M>(N, true); more<M>(o, N); return o; }();
    std::string tag = kind<M>();
    long base = bb::live();
    ctx.note(tag);
    {
        Universe<M> u(N);
        std::vector<std::string const*> history;
        static const std::vector<std::string> began{ "start", "start with m0", "start with m0 and m1", "start with m0, m1 and m2" };
        int there = ctx.choose(N, "existing") + (N > 2 ? 1 : 0);
        for (int i = 0; i < there; ++i) { Ref const& a = contents()[i]; u.s[i].m.reset(new M(build<M>(a))); u.s[i].r = value_of<M>(a); u.s[i].life = Live; }
        history.push_back(&began[there]);
        int n = int(ops.size());
        for (int d = 0; d < Depth; ++d) {
            int k = ctx.choose(n + 1, "operation");
            if (d == 0) ctx.shard();
            if (k == 0) break;
            history.push_back(&ops[k - 1].name);
            try { if (!ops[k - 1].run(u)) throw mc::Prune(); }
            catch (std::exception const& e) { CHECK(false, "exception:" + tag, std::string(e.what()) + " after " + text(history)); }
            mc::Hash h; h(tag);
            for (int i = 0; i < N; ++i) { h(int(u.s[i].life)); if (u.live(i)) { h(hash(u.s[i].r)); inspect(ctx, *u.s[i].m, u.s[i].r, tag, "m" + std::to_string(i), history); } }
            ctx.state(h);
            if constexpr (is_dense<M>::value) for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j)
                if (u.live(i) && u.live(j) && u.s[i].r.v.size() && u.s[j].r.v.size()) CHECK(u.s[i].m->getDataPointer() != u.s[j].m->getDataPointer(), "shared:" + tag, "two matrices share their memory after " + text(history));
        }
        for (int i = 0; i < N; ++i) u.s[i].m.reset();
        CHECK(bb::live() == base, "allocations:" + tag, std::to_string(bb::live() - base) + " blocks too many after " + text(history));
    }
    ctx.outcome(tag);
}

/// the same operations on two matrices of every size
template <class M> void wide(mc::Ctx& ctx)
{
    static const std::vector<Op<M>> ops = [] { auto o = operations<M>(2, false); more<M>(o, 2); return o; }();
    std::string tag = "wide " + kind<M>();
    ctx.note(tag);
    long base = bb::live();
    
    size_t l = ctx.pick(big_sides(ctx.thorough()), "side");
    if (l < 4) throw mc::Prune();
    std::vector<std::pair<size_t, size_t>> shapes{ { l, 2 }, { 1, l }, { 3, l } }; if (l <= 65) shapes.push_back({ l, l }); if (l <= 33) shapes.push_back({ l, l + 1 });
    int which = ctx.choose(int(shapes.size()), "shape");
    ctx.shard();
    auto [r, c] = shapes[which];
    auto [p, q] = ctx.pick(std::vector<std::pair<int, int>>{ { 0, 5 }, { 3, 6 }, { 7, 4 } }, "patterns");
    bool turned = r != c && ctx.flag("other shape");
    std::vector<std::string const*> history; static const std::string began = "start";
    history.push_back(&began);
    {
        Universe<M> u(2);
        Ref a = structured(r, c, p, wcode), b = structured(turned ? c : r, turned ? r : c, q, wother);
        int i = 0; for (Ref const* x : { &a, &b }) { u.s[i].m.reset(new M(build<M>(*x))); u.s[i].r = value_of<M>(*x); u.s[i++].life = Live; }
        bool multiplied = false;
        for (int d = 0; d < ctx.tier(1, 2); ++d) {
            int k = ctx.choose(int(ops.size()) + 1, "operation");
            if (k == 0) break;
            Op<M> const& op = ops[k - 1];
            if (op.name.find(" * ") != std::string::npos) { if (multiplied) throw mc::Prune(); multiplied = true; }
            history.push_back(&op.name);
            try { if (!op.run(u)) throw mc::Prune(); }
            catch (std::exception const& e) { CHECK(false, "exception:" + tag, std::string(e.what()) + " after " + text(history)); }
            mc::Hash h; h(tag);
            for (int i = 0; i < 2; ++i) { h(int(u.s[i].life)); if (u.live(i)) { h(hash(u.s[i].r)); inspect(ctx, *u.s[i].m, u.s[i].r, tag, "m" + std::to_string(i), history); } }
            ctx.state(h);
            if constexpr (is_dense<M>::value) if (u.live(0) && u.live(1) && u.s[0].r.v.size() && u.s[1].r.v.size()) CHECK(u.s[0].m->getDataPointer() != u.s[1].m->getDataPointer(), "shared:" + tag, "two matrices share their memory after " + text(history));
        }
    }
    CHECK(bb::live() == base, "allocations:" + tag, std::to_string(bb::live() - base) + " blocks too many after " + text(history));
    ctx.outcome(tag);
}

#define PART(n) (MC_PART == n)
#if PART(0)
mc::Register w1("wide dense double", wide<D<double>>, true);
#endif
#if PART(1)
mc::Register w2("wide dense float row-major", wide<D<float, RM>>, true);
#endif
#if PART(2)
mc::Register w3("wide sparse double", wide<S<double>>, true);
#endif
#if PART(3)
mc::Register w4("wide sparse float row-major", wide<S<float, RM>>, true);
#endif
#if PART(0)
mc::Register r1("dense double", explore<D<double>, 2, 3>, true), e1("dense double, three", explore<D<double>, 3, 3>, true, true);
#endif
#if PART(1)
mc::Register r2("dense float row-major", explore<D<float, RM>, 2, 3>, true), e2("dense float row-major, three", explore<D<float, RM>, 3, 3>, true, true);
#endif
#if PART(2)
mc::Register r3("sparse double", explore<S<double>, 2, 3>, true), e3("sparse double, three", explore<S<double>, 3, 3>, true, true);
#endif
#if PART(3)
mc::Register r4("sparse float row-major", explore<S<float, RM>, 2, 3>, true), e4("sparse float row-major, three", explore<S<float, RM>, 3, 3>, true, true);
#endif
#if PART(4)
mc::Register r5("zero", explore<Z, 3, 3>, true), e5("zero deep", explore<Z, 3, 4>, true, true);

// ---------------------------------------------------------------- blocked matrices share their blocks, everything else is a value

struct BModel { Life life = Absent; size_t r = 0, c = 0, ur = 0, uc = 0; std::vector<std::pair<int, double>> b; };   // per block, column by column: identity (-1: none) and element
struct BWorld { std::unique_ptr<BlockedDenseMatrix> m[3]; BModel r[3]; int ids = 0; std::vector<std::pair<double, std::weak_ptr<MatrixBase>>> known; };
typedef std::pair<std::string, std::function<bool(BWorld&)>> BOp;

void put(BWorld& w, int i, size_t row, size_t col)
{
    double x = ++w.ids;
    DynamicMatrix d(new D<double>(1, 1, AllFiller<double>(x)));
    (*w.m[i])(row, col) = d; w.r[i].b[row + col * w.r[i].r] = { w.ids, x };
}
std::vector<BOp> blocked_operations()
{
    std::vector<BOp> ops;
    auto def = [&](std::string const& name, std::function<bool(BWorld&)> f) { ops.push_back({ name, f }); };
    auto model = [](size_t r, size_t c, size_t ur, size_t uc) { BModel m; m.life = Live; m.r = r; m.c = c; m.ur = ur; m.uc = uc; m.b.assign(r * c, { -1, 0.0 }); return m; };
    struct Shape { size_t r, c, ur, uc; };
    static const std::vector<Shape> shapes{ { 2, 1, 5, 3 }, { 1, 3, 2, 7 }, { 0, 0, 0, 0 } };
    for (int i = 0; i < 3; ++i) {
        std::string I = "b" + std::to_string(i);
        def(I + " default constructed", [=](BWorld& w) { if (w.r[i].life != Absent) return false; w.m[i].reset(new BlockedDenseMatrix()); w.r[i] = model(0, 0, 0, 0); return true; });
        def(I + " destroyed", [=](BWorld& w) { if (w.r[i].life == Absent) return false; w.m[i].reset(); w.r[i] = BModel(); return true; });
        for (auto s : shapes) {
            std::string T = std::to_string(s.r) + "x" + std::to_string(s.c);
            def(I + " constructed " + T, [=](BWorld& w) { if (w.r[i].life != Absent) return false; w.m[i].reset(new BlockedDenseMatrix(s.r, s.c, s.ur, s.uc)); w.r[i] = model(s.r, s.c, s.ur, s.uc); for (size_t k = 0; k < s.r; ++k) for (size_t l = 0; l < s.c; ++l) put(w, i, k, l); return true; });
            def(I + " resized " + T, [=](BWorld& w) { if (w.r[i].life == Absent) return false; w.m[i]->resize(s.r, s.c, s.ur, s.uc); w.r[i] = model(s.r, s.c, s.ur, s.uc); for (size_t k = 0; k < s.r; ++k) for (size_t l = 0; l < s.c; ++l) put(w, i, k, l); return true; });
        }
        def(I + " block replaced", [=](BWorld& w) { if (w.r[i].life != Live || w.r[i].b.empty()) return false; put(w, i, w.r[i].r - 1, w.r[i].c - 1); return true; });
        def(I + " = " + I, [=](BWorld& w) { if (w.r[i].life != Live) return false; *w.m[i] = static_cast<BlockedDenseMatrix const&>(*w.m[i]); return true; });
        def(I + " = move(" + I + ")", [=](BWorld& w) { if (w.r[i].life != Live) return false; BlockedDenseMatrix& m = *w.m[i]; m = std::move(m); return true; });
        for (int j = 0; j < 3; ++j) {
            std::string J = "b" + std::to_string(j);
            if (j <= i) def("swap(" + J + "," + I + ")", [=](BWorld& w) { if (w.r[i].life == Absent || w.r[j].life == Absent) return false; using std::swap; swap(*w.m[i], *w.m[j]); std::swap(w.r[i], w.r[j]); return true; });
            if (i == j) continue;
            def(I + " copied from " + J, [=](BWorld& w) { if (w.r[i].life != Absent || w.r[j].life != Live) return false; w.m[i].reset(new BlockedDenseMatrix(static_cast<BlockedDenseMatrix const&>(*w.m[j]))); w.r[i] = w.r[j]; return true; });
            def(I + " moved from " + J, [=](BWorld& w) { if (w.r[i].life != Absent || w.r[j].life != Live) return false; w.m[i].reset(new BlockedDenseMatrix(std::move(*w.m[j]))); w.r[i] = w.r[j]; w.r[j] = BModel(); w.r[j].life = MovedFrom; return true; });
            def(I + " = " + J, [=](BWorld& w) { if (w.r[i].life == Absent || w.r[j].life != Live) return false; *w.m[i] = static_cast<BlockedDenseMatrix const&>(*w.m[j]); w.r[i] = w.r[j]; return true; });
            def(I + " = move(" + J + ")", [=](BWorld& w) { if (w.r[i].life == Absent || w.r[j].life != Live) return false; *w.m[i] = std::move(*w.m[j]); w.r[i] = w.r[j]; w.r[j] = BModel(); w.r[j].life = MovedFrom; return true; });
        }
    }
    return ops;
}
template <int Depth> void blocked_histories(mc::Ctx& ctx)
{
    static const std::vector<BOp> ops = blocked_operations();
    long base = bb::live();
    ctx.note("blocked");
    {
        BWorld w; std::vector<std::string const*> history;
        int there = ctx.choose(3, "existing");
        static const std::vector<std::string> began{ "start", "start with b0", "start with b0 and b1" };
        static const std::string names[] = { "b0 constructed 2x1", "b1 constructed 1x3" };
        for (int i = 0; i < there; ++i) for (auto const& o : ops) if (o.first == names[i]) o.second(w);
        history.push_back(&began[there]);
        for (int d = 0; d < Depth; ++d) {
            int k = ctx.choose(int(ops.size()) + 1, "operation");
            if (d == 0) ctx.shard();
            if (k == 0) break;
            if (!ops[k - 1].second(w)) throw mc::Prune();
            history.push_back(&ops[k - 1].first);
            mc::Hash h; std::vector<int> seen;
            for (int i = 0; i < 3; ++i) {
                BModel const& r = w.r[i]; h(int(r.life))(r.r)(r.c);
                if (r.life != Live) continue;
                BlockedDenseMatrix const& m = *w.m[i]; std::string who = "b" + std::to_string(i);
                CHECK(m.getNbRows() == r.r && m.getNbColumns() == r.c && m.getSize() == r.r * r.c && size_t(m.end() - m.begin()) == r.r * r.c, "dimension:blocked", who + " is " + std::to_string(m.getNbRows()) + "x" + std::to_string(m.getNbColumns()) + ", size " + std::to_string(m.getSize()) + ", " + std::to_string(m.end() - m.begin()) + " blocks after " + text(history));
                CHECK(m.getUnblockedRows() == r.ur && m.getUnblockedColumns() == r.uc, "unblocked dimension:blocked", who + " covers " + std::to_string(m.getUnblockedRows()) + "x" + std::to_string(m.getUnblockedColumns()) + " instead of " + std::to_string(r.ur) + "x" + std::to_string(r.uc) + " after " + text(history));
                for (size_t k = 0; k < r.r; ++k) for (size_t l = 0; l < r.c; ++l) {
                    auto b = std::dynamic_pointer_cast<D<double>>(m(k, l));
                    CHECK(b && (*b)(0, 0) == r.b[k + l * r.r].second, "block:blocked", "block " + std::to_string(k) + "," + std::to_string(l) + " of " + who + " after " + text(history));
                    long owners = 0; for (int q = 0; q < 3; ++q) for (auto const& x : w.r[q].b) owners += x.first == r.b[k + l * r.r].first;
                    CHECK(b.use_count() - 1 == owners, "owners:blocked", "block " + std::to_string(k) + "," + std::to_string(l) + " of " + who + " has " + std::to_string(b.use_count() - 1) + " owners instead of " + std::to_string(owners) + " after " + text(history));
                }
            }
            ctx.state(h);
        }
        for (auto& m : w.m) m.reset();
        CHECK(bb::live() == base, "allocations:blocked", std::to_string(bb::live() - base) + " blocks too many after " + text(history));
    }
    ctx.outcome("blocked");
}
mc::Register rb("blocked", blocked_histories<3>, true), eb("blocked deep", blocked_histories<4>, true, true);

// ---------------------------------------------------------------- matrices on external memory

struct XModel { bool there = false, moved = false; Ref r; int ext = -1; };
struct XWorld { double ext[2][4]; D<double>* m[3] = { nullptr, nullptr, nullptr }; XModel r[3]; Ref value(int i) const { if (r[i].ext < 0) return r[i].r; return make(r[i].r.r, r[i].r.c, [&](size_t k, size_t l) { return shadow[r[i].ext][k + l * r[i].r.r]; }); } double shadow[2][4]; ~XWorld() { for (auto p : m) delete p; } };
typedef std::pair<std::string, std::function<bool(XWorld&)>> XOp;
std::vector<XOp> external_operations()
{
    std::vector<XOp> ops;
    auto def = [&](std::string const& name, std::function<bool(XWorld&)> f) { ops.push_back({ name, f }); };
    for (int i = 0; i < 3; ++i) {
        std::string I = "x" + std::to_string(i);
        auto own = [](XWorld& w, int i, Ref const& a) { w.r[i] = XModel(); w.r[i].there = true; w.r[i].r = a; };
        for (int k = 0; k < 2; ++k) {
            size_t r = k ? 1 : 2, c = k ? 4 : 2;
            def(I + " on external memory " + std::to_string(k), [=](XWorld& w) { if (w.r[i].there) return false; w.m[i] = new D<double>(r, c, w.ext[k]); w.r[i].there = true; w.r[i].r = Ref(r, c); w.r[i].ext = k; return true; });
        }
        def(I + " constructed", [=](XWorld& w) { if (w.r[i].there) return false; w.m[i] = new D<double>(dense<double>(contents()[2])); own(w, i, contents()[2]); return true; });
        def(I + " destroyed", [=](XWorld& w) { if (!w.r[i].there) return false; delete w.m[i]; w.m[i] = nullptr; w.r[i] = XModel(); return true; });
        def(I + " = 4", [=](XWorld& w) { if (!w.r[i].there || w.r[i].moved) return false; *w.m[i] = 4.0; XModel& m = w.r[i]; if (m.ext < 0) for (double& x : m.r.v) x = 4; else for (size_t e = 0; e < 4; ++e) w.shadow[m.ext][e] = 4; return true; });
        def(I + " += itself", [=](XWorld& w) { if (!w.r[i].there || w.r[i].moved) return false; *w.m[i] += *w.m[i]; XModel& m = w.r[i]; if (m.ext < 0) for (double& x : m.r.v) x += x; else for (size_t e = 0; e < 4; ++e) w.shadow[m.ext][e] *= 2; return true; });
        def(I + " element written", [=](XWorld& w) { if (!w.r[i].there || w.r[i].moved || w.r[i].r.v.empty()) return false; XModel& m = w.r[i]; (*w.m[i])(m.r.r - 1, 0) = 9; if (m.ext < 0) m.r(m.r.r - 1, 0) = 9; else w.shadow[m.ext][m.r.r - 1] = 9; return true; });
        def(I + " = " + I, [=](XWorld& w) { if (!w.r[i].there || w.r[i].moved) return false; *w.m[i] = static_cast<D<double> const&>(*w.m[i]); return true; });
        def(I + " = move(" + I + ")", [=](XWorld& w) { if (!w.r[i].there || w.r[i].moved) return false; D<double>& m = *w.m[i]; m = std::move(m); return true; });
        def(I + " = sum", [=](XWorld& w) { if (!w.r[i].there || w.r[i].moved) return false; Ref v = w.value(i); *w.m[i] = *w.m[i] + *w.m[i]; own(w, i, add(v, v)); return true; });   // assigned from a temporary which owns its memory
        def(I + " resized", [=](XWorld& w) {
            if (!w.r[i].there || w.r[i].moved) return false;
            size_t r = w.r[i].r.r, c = w.r[i].r.c; bool thrown = false;
            try { w.m[i]->resize(c, r); } catch (std::runtime_error const&) { thrown = true; }
            if (thrown) throw mc::Failure{ "resize", "resizing to the same number of elements throws" };
            w.r[i].r.r = c; w.r[i].r.c = r;
            if (w.r[i].ext < 0) { *w.m[i] = 2.0; w.r[i].r = Ref(c, r, 2.0); }
            return true; });
        def(I + " resized to other size", [=](XWorld& w) {
            if (!w.r[i].there || w.r[i].moved) return false;
            bool thrown = false;
            try { w.m[i]->resize(3, 2); } catch (std::runtime_error const&) { thrown = true; }
            if (w.r[i].ext >= 0) { if (!thrown) throw mc::Failure{ "resize", "external memory is resized" }; return true; }
            if (thrown) throw mc::Failure{ "resize", "resizing throws" };
            *w.m[i] = 2.0; own(w, i, Ref(3, 2, 2.0)); return true; });
        for (int j = 0; j < 3; ++j) {
            std::string J = "x" + std::to_string(j);
            if (j <= i) def("swap(" + J + "," + I + ")", [=](XWorld& w) { if (!w.r[i].there || !w.r[j].there) return false; using std::swap; swap(*w.m[i], *w.m[j]); std::swap(w.r[i], w.r[j]); return true; });
            if (i == j) continue;
            def(I + " copied from " + J, [=](XWorld& w) { if (w.r[i].there || !w.r[j].there || w.r[j].moved) return false; w.m[i] = new D<double>(static_cast<D<double> const&>(*w.m[j])); own(w, i, w.value(j)); return true; });
            def(I + " moved from " + J, [=](XWorld& w) { if (w.r[i].there || !w.r[j].there || w.r[j].moved) return false; w.m[i] = new D<double>(std::move(*w.m[j])); w.r[i] = w.r[j]; w.r[j] = XModel(); w.r[j].there = w.r[j].moved = true; return true; });
            def(I + " = " + J, [=](XWorld& w) { if (!w.r[i].there || !w.r[j].there || w.r[j].moved) return false; *w.m[i] = static_cast<D<double> const&>(*w.m[j]); if (w.r[j].ext >= 0) w.r[i] = w.r[j]; else own(w, i, w.value(j)); return true; });
            def(I + " = move(" + J + ")", [=](XWorld& w) { if (!w.r[i].there || !w.r[j].there || w.r[j].moved) return false; *w.m[i] = std::move(*w.m[j]); w.r[i] = w.r[j]; w.r[j] = XModel(); w.r[j].there = w.r[j].moved = true; return true; });
            def(I + " += " + J, [=](XWorld& w) {
                if (!w.r[i].there || w.r[i].moved || !w.r[j].there || w.r[j].moved || w.r[i].r.r != w.r[j].r.r || w.r[i].r.c != w.r[j].r.c) return false;
                Ref v = add(w.value(i), w.value(j)); *w.m[i] += *w.m[j];
                if (w.r[i].ext < 0) w.r[i].r = v; else for (size_t k = 0; k < v.r; ++k) for (size_t l = 0; l < v.c; ++l) w.shadow[w.r[i].ext][k + l * v.r] = v(k, l);
                return true; });
        }
    }
    return ops;
}
template <int Depth> void external(mc::Ctx& ctx)
{
    static const std::vector<XOp> ops = external_operations();
    static const std::string names[] = { "x0 on external memory 0", "x1 constructed", "x2 on external memory 1" };
    long base = bb::live();
    ctx.note("external memory");
    {
        XWorld w; std::vector<std::string const*> history;
        for (int k = 0; k < 2; ++k) for (int e = 0; e < 4; ++e) w.ext[k][e] = w.shadow[k][e] = 10 * (k + 1) + e;
        int there = ctx.choose(3, "existing") + 1;
        for (int i = 0; i < there; ++i) for (auto const& o : ops) if (o.first == names[i]) { o.second(w); history.push_back(&o.first); }
        for (int d = 0; d < Depth; ++d) {
            int k = ctx.choose(int(ops.size()) + 1, "operation");
            if (d == 0) ctx.shard();
            if (k == 0) break;
            history.push_back(&ops[k - 1].first);
            if (!ops[k - 1].second(w)) throw mc::Prune();
            mc::Hash h;
            for (int q = 0; q < 2; ++q) for (int e = 0; e < 4; ++e) CHECK(w.ext[q][e] == w.shadow[q][e], "external memory", "element " + std::to_string(e) + " of external memory " + std::to_string(q) + " is " + std::to_string(w.ext[q][e]) + " instead of " + std::to_string(w.shadow[q][e]) + " after " + text(history));
            for (int i = 0; i < 3; ++i) {
                h(w.r[i].there)(w.r[i].moved)(w.r[i].ext);
                if (!w.r[i].there || w.r[i].moved) continue;
                inspect(ctx, *w.m[i], w.value(i), "external memory", "x" + std::to_string(i), history);
                if (w.r[i].ext >= 0) CHECK(w.m[i]->getDataPointer() == w.ext[w.r[i].ext], "view:external memory", "x" + std::to_string(i) + " has left the external memory after " + text(history));
                h(hash(w.value(i)));
            }
            ctx.state(h);
        }
        for (auto& p : w.m) { delete p; p = nullptr; }
        CHECK(bb::live() == base, "allocations:external memory", std::to_string(bb::live() - base) + " blocks too many after " + text(history));
    }
    ctx.outcome("external memory");
}
mc::Register rx("external memory", external<3>, true), ex("external memory deep", external<4>, true, true);
#endif

} // namespace
