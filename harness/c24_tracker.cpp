// C24: the tracker and the enumeration parser keep their books exactly.
#define MC_MAIN
#include "blocked.h"
#include <BlasBooster/Core/Multiplication_OpenBLAS.h>
#include <BlasBooster/Core/Multiplication_Eigen.h>
#include <BlasBooster/Core/Multiplication_Blaze.h>
#include <BlasBooster/Core/BlockSizeGenerator.h>
#include <BlasBooster/Utilities/Tracker.h>
using namespace bb;

namespace {

const std::vector<std::string> names{ "OpenBLAS_dgemm", "OpenBLAS_sgemm", "IntelMKL_dgemm", "IntelMKL_sgemm", "IntelMKL_dcsrmm", "IntelMKL_scsrmm", "IntelMKL_dcsrmultcsr", "IntelMKL_scsrmultcsr",
    "Eigen_dgemm", "Eigen_sgemm", "Eigen_sdgemm", "Eigen_dsgemm", "Blaze_dgemm", "Blaze_sgemm", "Blaze_sdgemm", "Blaze_dsgemm", "Native_GeneralDense", "Native_sparse", "Native_sparse_dense", "Native_dense_sparse",
    "Native_matrix_zero", "Native_zero_matrix", "Native_zero_zero", "get_detection_arrays", "get_block_size" };
#define IDS X(OpenBLAS_dgemm) X(OpenBLAS_sgemm) X(IntelMKL_dgemm) X(IntelMKL_sgemm) X(IntelMKL_dcsrmm) X(IntelMKL_scsrmm) X(IntelMKL_dcsrmultcsr) X(IntelMKL_scsrmultcsr) X(Eigen_dgemm) X(Eigen_sgemm) X(Eigen_sdgemm) X(Eigen_dsgemm) \
    X(Blaze_dgemm) X(Blaze_sgemm) X(Blaze_sdgemm) X(Blaze_dsgemm) X(Native_GeneralDense) X(Native_sparse) X(Native_sparse_dense) X(Native_dense_sparse) X(Native_matrix_zero) X(Native_zero_matrix) X(Native_zero_zero) X(get_detection_arrays) X(get_block_size)
const int N = 25;
const TrackerID ids[] = {
#define X(n) TrackerID::n,
    IDS
#undef X
};
int at(TrackerID id) { return int(static_cast<size_t>(id)); }
typedef BlasBooster::clock Clock;

struct Books { std::vector<size_t> count = std::vector<size_t>(N, 0); std::vector<Clock::duration> time = std::vector<Clock::duration>(N, Clock::duration(0)); };
void clear() { TrackerRegister::count.fill(0); TrackerRegister::time.fill(Clock::duration(0)); }
std::string str(Books const& b) { std::string s; for (int i = 0; i < N; ++i) if (b.count[i]) s += (s.empty() ? "" : ", ") + names[i] + " " + std::to_string(b.count[i]); return s.empty() ? "nothing" : s; }
Books now() { Books b; for (int i = 0; i < N; ++i) { b.count[i] = TrackerRegister::count[at(ids[i])]; b.time[i] = TrackerRegister::time[at(ids[i])]; } return b; }

SCENARIO(parser)
{
    CHECK(static_cast<size_t>(TrackerID::size) == size_t(N) && names.size() == size_t(N), "identifiers", std::to_string(static_cast<size_t>(TrackerID::size)));
    EnumParser<TrackerID> first, second(first), third; third = first;
    EnumParser<TrackerID> const& p = ctx.choose(3, "parser") == 0 ? first : ctx.prefix.back() == 1 ? second : third;
    int i = ctx.choose(N, "identifier"), j = ctx.choose(N, "other");
    CHECK(p(names[i]) == ids[i], "parsing", names[i] + " is parsed as number " + std::to_string(at(p(names[i]))));
    CHECK(p(ids[i]) == names[i], "printing", names[i] + " is printed as " + p(ids[i]));
    CHECK((p(names[i]) == p(names[j])) == (i == j) && (p(ids[i]) == p(ids[j])) == (i == j), "ambiguous", names[i] + " and " + names[j]);
    CHECK(at(ids[i]) >= 0 && at(ids[i]) < N, "identifiers", names[i]);
    ctx.outcome(names[i]);
}

struct Any { virtual ~Any() {} virtual Any* copy() const = 0; virtual void back(Clock::duration d) = 0; };
template <TrackerID ID> struct Holder : Any { Tracker<ID> t; Any* copy() const override { return new Holder(*this); } void back(Clock::duration d) override { t.start -= d; } };
Any* tracker(int i)
{
    switch (i) {
#define X(n) case int(TrackerID::n): return new Holder<TrackerID::n>();
    IDS
#undef X
    }
    return nullptr;
}

/// all programs of a few tracked scopes: opened, copied, assigned, closed in any order; and of direct bookings
SCENARIO_SHARDED(scopes)
{
    clear();
    int a = ctx.choose(N, "first"), b = ctx.choose(N, "second");
    if (a == b) throw mc::Prune();
    ctx.shard();
    const int id[2] = { a, b };
    Books e; std::vector<std::pair<int, Any*>> open; std::string h;
    std::vector<Clock::duration> shifted;
    const Clock::duration hour = std::chrono::hours(1), minutes = std::chrono::minutes(20);
    std::vector<Clock::duration> least(N, Clock::duration(0)), most(N, Clock::duration(0));
    const Clock::duration amounts[] = { Clock::duration(1), Clock::duration(0), std::chrono::hours(100) };
    int depth = ctx.tier(4, 5);
    for (int d = 0; d < depth; ++d) {
        int op = ctx.choose(10, "operation");
        if (op == 0) break;
        if (op <= 2) { open.emplace_back(id[op - 1], tracker(at(ids[id[op - 1]]))); shifted.push_back(Clock::duration(0)); h += ", open " + names[id[op - 1]]; }
        else if (op <= 4) { size_t k = op - 3; if (k >= open.size()) throw mc::Prune(); k = k ? open.size() - 1 : 0;
            int i = open[k].first; delete open[k].second; ++e.count[i]; least[i] += shifted[k]; most[i] += shifted[k] + minutes; open.erase(open.begin() + k); shifted.erase(shifted.begin() + k); h += ", close " + names[i]; }
        else if (op == 5) { if (open.empty()) throw mc::Prune(); open.emplace_back(open.back().first, open.back().second->copy()); shifted.push_back(shifted.back()); h += ", copy"; }
        else if (op == 6) { if (open.empty()) throw mc::Prune(); open.back().second->back(hour); shifted.back() += hour; h += ", an hour passes"; }
        else { Clock::duration t = amounts[op - 7]; int i = id[d % 2]; TrackerRegister::add(ids[i], t); ++e.count[i]; least[i] += t; most[i] += t; h += ", booked on " + names[i]; }
        Books n = now();
        CHECK(n.count == e.count, "count:scopes", str(n) + " instead of " + str(e) + " after " + h);
        for (int i = 0; i < N; ++i) CHECK(n.time[i] >= least[i] - std::chrono::minutes(e.count[i] ? 1 : 0) && n.time[i] <= most[i], "time:scopes", "time of " + names[i] + " is " + std::to_string(n.time[i].count()) + " after " + h);
    }
    bool thrown = ctx.flag();
    if (thrown) try { Tracker<TrackerID::Native_sparse> t; throw 1; } catch (int) { ++e.count[at(TrackerID::Native_sparse)]; }
    for (auto& o : open) { delete o.second; ++e.count[o.first]; }
    CHECK(now().count == e.count, "count:scopes", str(now()) + " instead of " + str(e) + " after " + h);
    ctx.state(mc::Hash()(str(e)));
    ctx.outcome("scopes");
}

/// durations are booked exactly: every sequence of odd amounts on two operations adds up to the tick
SCENARIO_SHARDED(amounts)
{
    clear();
    int a = ctx.choose(N, "first"), b = ctx.choose(N, "second");
    if (a == b) throw mc::Prune();
    ctx.shard();
    const int id[2] = { a, b };
    const long amounts[] = { 0, 1, 999, 1001, 123456789, 5000000000001L, 9007199254740993L };
    Books e; std::string h;
    for (int d = 0, depth = ctx.tier(3, 4); d < depth; ++d) {
        int op = ctx.choose(15, "operation");
        if (op == 0) break;
        int i = id[(op - 1) / 7]; Clock::duration t(amounts[(op - 1) % 7]);
        TrackerRegister::add(ids[i], t); ++e.count[i]; e.time[i] += t; h += ", " + std::to_string(t.count()) + " on " + names[i];
        Books n = now();
        CHECK(n.count == e.count, "count:amounts", str(n) + " instead of " + str(e) + " after " + h);
        for (int k = 0; k < N; ++k) CHECK(n.time[k] == e.time[k], "time:amounts", "time of " + names[k] + " is " + std::to_string(n.time[k].count()) + " instead of " + std::to_string(e.time[k].count()) + " after " + h);
    }
    ctx.state(mc::Hash()(h));
    ctx.outcome("amounts");
}

/// the printed report names every tracked operation with its count and time, in order, and nothing else
SCENARIO_SHARDED(report)
{
    clear();
    std::vector<int> picked;
    for (int k = 0; k < ctx.tier(2, 3); ++k) { int i = ctx.choose(N + 1, "identifier") - 1; if (i >= 0 && !picked.empty() && picked.back() >= i) throw mc::Prune(); if (i < 0) { if (k == 0) picked.push_back(-1); break; } picked.push_back(i); }
    ctx.shard();
    if (picked[0] < 0) picked.clear();
    const size_t counts[] = { 1, 12, 123456789 }; const long times[] = { 0, 7, 123456789012345L };
    std::vector<std::string> expected;
    int c = ctx.choose(3, "count"), t = ctx.choose(3, "time");
    for (int i : picked) {
        TrackerRegister::count[at(ids[i])] = counts[c]; TrackerRegister::time[at(ids[i])] = Clock::duration(times[t]);
        expected.insert(expected.end(), { names[i], std::to_string(counts[c]), std::to_string(times[t]), "ns" });
        c = (c + 1) % 3; t = (t + 2) % 3;
    }
    Books before = now();
    std::ostringstream o; o << 1.5; std::ios::fmtflags f = o.flags();
    std::ostream& r = TrackerRegister::print(o);
    CHECK(&r == &o && o.flags() == f, "report", "stream changed");
    std::string text = o.str(), line, word; std::istringstream in(text.substr(3)); std::vector<std::string> got; bool header = true;
    while (std::getline(in, line)) { if (header) { header = line.find("---") == std::string::npos; continue; } std::istringstream l(line); while (l >> word) got.push_back(word); }
    CHECK(got == expected, "report", text);
    CHECK(now().count == before.count && now().time == before.time, "report", "the report changes the books");
    ctx.state(mc::Hash()(text));
    ctx.outcome("report");
}

// every multiplication books itself once, on its own account
template <class I, class A, class B> void booked(mc::Ctx& ctx, A const& a, B const& b, TrackerID id, char const* iface, size_t times = 1)
{
    std::string tag = std::string(iface) + ":" + kind<A>() + "*" + kind<B>();
    ctx.note(tag);
    Books e; e.count[at(id)] = times;
    clear();
    auto c = (a * b).template execute<I>();
    CHECK(now().count == e.count, "count:" + tag, str(now()) + " instead of " + str(e));
    auto d = (a * b).template execute<I>(); e.count[at(id)] += times;
    CHECK(now().count == e.count, "count:" + tag, str(now()) + " instead of " + str(e) + " after two products");
    ctx.outcome(tag);
}
SCENARIO_SHARDED(products)
{
    size_t n = ctx.choose(ctx.tier(3, 4), "rows"), k = ctx.choose(ctx.tier(3, 4), "inner"), m = ctx.choose(ctx.tier(3, 4), "columns");
    ctx.shard();
    Ref a = make(n, k, code), b = make(k, m, code);
    D<double> da = dense<double>(a), db = dense<double>(b); D<float> fa = dense<float>(a), fb = dense<float>(b);
    S<double> sa = sparse<double>(a), sb = sparse<double>(b); S<float> ga = sparse<float>(a), gb = sparse<float>(b); Z za(n, k), zb(k, m);
    typedef TrackerID T;
    booked<OpenBLAS>(ctx, da, db, T::OpenBLAS_dgemm, "OpenBLAS"); booked<OpenBLAS>(ctx, fa, fb, T::OpenBLAS_sgemm, "OpenBLAS");
    booked<TheBestPolicy>(ctx, da, db, T::OpenBLAS_dgemm, "TheBestPolicy"); booked<TheBestPolicy>(ctx, fa, fb, T::OpenBLAS_sgemm, "TheBestPolicy");
    booked<TheBestPolicy>(ctx, fa, db, T::Native_GeneralDense, "TheBestPolicy"); booked<TheBestPolicy>(ctx, da, fb, T::Native_GeneralDense, "TheBestPolicy");
    booked<EigenI>(ctx, da, db, T::Eigen_dgemm, "Eigen"); booked<EigenI>(ctx, fa, fb, T::Eigen_sgemm, "Eigen"); booked<EigenI>(ctx, fa, db, T::Eigen_sdgemm, "Eigen"); booked<EigenI>(ctx, da, fb, T::Eigen_dsgemm, "Eigen");
    if (n && k && m) {   // Blaze's CustomMatrix does not take empty arrays
    booked<Blaze>(ctx, da, db, T::Blaze_dgemm, "Blaze"); booked<Blaze>(ctx, fa, fb, T::Blaze_sgemm, "Blaze"); booked<Blaze>(ctx, fa, db, T::Blaze_sdgemm, "Blaze"); booked<Blaze>(ctx, da, fb, T::Blaze_dsgemm, "Blaze");
    }
    booked<Native>(ctx, da, db, T::Native_GeneralDense, "Native"); booked<Native>(ctx, fa, fb, T::Native_GeneralDense, "Native"); booked<Native>(ctx, da, fb, T::Native_GeneralDense, "Native"); booked<Native>(ctx, fa, db, T::Native_GeneralDense, "Native");
    booked<Native>(ctx, sa, sb, T::Native_sparse, "Native"); booked<Native>(ctx, ga, gb, T::Native_sparse, "Native");
    booked<Native>(ctx, sa, db, T::Native_sparse_dense, "Native"); booked<Native>(ctx, ga, fb, T::Native_sparse_dense, "Native"); booked<Native>(ctx, da, sb, T::Native_dense_sparse, "Native"); booked<Native>(ctx, fa, gb, T::Native_dense_sparse, "Native");
    booked<Native>(ctx, da, zb, T::Native_matrix_zero, "Native"); booked<Native>(ctx, ga, zb, T::Native_matrix_zero, "Native"); booked<Native>(ctx, za, fb, T::Native_zero_matrix, "Native"); booked<Native>(ctx, za, sb, T::Native_zero_matrix, "Native"); booked<Native>(ctx, za, zb, T::Native_zero_zero, "Native");
    ctx.state(mc::Hash()(n)(k)(m));
}

/// products of blocked matrices book one multiplication per pair of blocks
SCENARIO_SHARDED(blocks)
{
    size_t p = ctx.choose(3, "block rows") + 1, q = ctx.choose(3, "inner blocks") + 1, r = ctx.choose(3, "block columns") + 1;
    int ta = ctx.choose(4, "type A"), tb = ctx.choose(4, "type B"); bool best = ctx.flag();
    ctx.shard();
    // 0 zero, 1 dense double, 2 dense float, 3 sparse double; blocks are always multiplied by the best policy
    auto block = [](int t, Ref const& a) -> DynamicMatrix { switch (t) { case 0: return DynamicMatrix(new Z(a.r, a.c)); case 1: return DynamicMatrix(new D<double>(dense<double>(a))); case 2: return DynamicMatrix(new D<float>(dense<float>(a))); default: return DynamicMatrix(new S<double>(sparse<double>(a))); } };
    BlockedDenseMatrix A(p, q, 2 * p, q), B(q, r, q, r);
    for (size_t i = 0; i < p; ++i) for (size_t j = 0; j < q; ++j) A(i, j) = block(ta, make(2, 1, code));
    for (size_t i = 0; i < q; ++i) for (size_t j = 0; j < r; ++j) B(i, j) = block(tb, make(1, 1, code));
    typedef TrackerID T;
    T id = ta == 0 && tb == 0 ? T::Native_zero_zero : ta == 0 ? T::Native_zero_matrix : tb == 0 ? T::Native_matrix_zero : ta == 3 && tb == 3 ? T::Native_sparse : ta == 3 ? T::Native_sparse_dense : tb == 3 ? T::Native_dense_sparse
        : ta == tb ? (ta == 1 ? T::OpenBLAS_dgemm : T::OpenBLAS_sgemm) : T::Native_GeneralDense;
    Books e; e.count[at(id)] = p * q * r;
    std::string tag = std::string(best ? "TheBestPolicy" : "Native") + ":blocks";
    clear();
    auto c = best ? BlockedDenseMatrix((A * B).template execute<TheBestPolicy>()) : BlockedDenseMatrix((A * B).template execute<Native>());
    CHECK(now().count == e.count, "count:" + tag, str(now()) + " instead of " + str(e));
    ctx.state(mc::Hash()(p)(q)(r)(ta)(tb)(best));
    ctx.outcome(tag);
}

/// the generator of block sizes books what it does
SCENARIO(generator)
{
    size_t n = ctx.choose(5, "rows") + 1, m = ctx.choose(5, "columns") + 1, max = ctx.choose(4, "maximum") + 2;
    D<double> a = dense<double>(make(n, m, code)), b = dense<double>(make(m, n, code));
    BlockSizeGenerator g(1, max);
    Books e; clear();
    if (ctx.flag()) { g(a); if (n > max || m > max) { e.count[at(TrackerID::get_detection_arrays)] = 1; e.count[at(TrackerID::get_block_size)] = 2; } }
    else { g.matrix_matrix_mult(a, b); e.count[at(TrackerID::get_detection_arrays)] = 2; e.count[at(TrackerID::get_block_size)] = 3; }
    CHECK(now().count == e.count, "count:generator", str(now()) + " instead of " + str(e));
    ctx.outcome("generator");
}

} // namespace
