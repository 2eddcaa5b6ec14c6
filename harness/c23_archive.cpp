// C23: archives and files bring every matrix and storage back, or report the failure.
#if MC_PART == 0
#define MC_MAIN
#endif
#include "bb.h"
#include <BlasBooster/Utilities/FileIO.h>
#include <BlasBooster/Utilities/BoostSerializePath.h>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace bb;

namespace {

std::string slurp(std::string const& n) { std::ifstream i(n, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
void spit(std::string const& n, std::string const& s) { std::ofstream o(n, std::ios::binary); o.write(s.data(), std::streamsize(s.size())); }

/// archive kinds
enum Kind { TEXT, BINARY, FILE_BINARY, KINDS };
const char* const kind_names[] = { "text archive", "binary archive", "binary file" };
template <class X> std::string save(int kind, X const& x)
{
    if (kind == FILE_BINARY) { writeBinary(const_cast<X&>(x), "x", "a.bin"); return slurp("a.bin"); }
    std::ostringstream o;
    if (kind == TEXT) { boost::archive::text_oarchive a(o); a << x; } else { boost::archive::binary_oarchive a(o); a << x; }
    return o.str();
}
template <class X> void load(int kind, std::string const& s, X& x)
{
    if (kind == FILE_BINARY) { spit("b.bin", s); readBinary(x, "x", "b.bin"); return; }
    std::istringstream i(s);
    if (kind == TEXT) { boost::archive::text_iarchive a(i); a >> x; } else { boost::archive::binary_iarchive a(i); a >> x; }
}

template <class T> std::vector<T> specials()
{
    typedef std::numeric_limits<T> L;
    std::vector<T> v{ T(0), T(1), T(7), L::max(), L::lowest(), L::min() };
    if constexpr (std::is_floating_point<T>::value) for (T x : { T(-0.0), T(1) / T(3), -T(1) / T(7), L::denorm_min(), -L::min(), L::epsilon(), T(1) + L::epsilon() }) v.push_back(x);
    return v;
}
template <class T> std::vector<T> nonfinite() { typedef std::numeric_limits<T> L; if constexpr (std::is_floating_point<T>::value) return { L::infinity(), -L::infinity(), L::quiet_NaN() }; else return {}; }

template <class T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class C, class V> bool contents(C const& c, V const& v) { if (size_t(c.end() - c.begin()) != v.size()) return false; for (size_t e = 0; e < v.size(); ++e) if (!same<typename V::value_type>(c.begin()[e], v[e])) return false; return true; }

template <class T, class P> struct Case { typedef D<T, P> M; };
template <class M> M target(int way, size_t r, size_t c)
{
    typedef typename std::decay<decltype(*std::declval<M>().begin())>::type T;
    switch (way) {
    case 0: return M();
    case 1: { M m(r, c); m = T(3); return m; }
    case 2: { M m(r + 1, c + 2); m = T(3); return m; }
    case 3: { M m(1, 1); m = T(3); return m; }
    case 4: { M m(2, 2); m = T(3); M n(std::move(m)); return m; }   // moved from
    default: { M m(0, 3); return m; }
    }
}
const int targets = 6;
const char* const target_names[] = { "empty", "same shape", "larger", "1x1", "moved from", "0x3" };

template <class T, class P> void matrices(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<M>();
    ctx.note(tag);
    int top = ctx.tier(3, 4);
    size_t r = ctx.range(0, top, "rows"), c = ctx.range(0, top, "columns");
    int k = ctx.choose(KINDS, "kind");
    ctx.shard();
    std::vector<T> sp = specials<T>();
    if (k != TEXT) for (T x : nonfinite<T>()) sp.push_back(x);   // text streams cannot read them
    int special = ctx.choose(1 + int(sp.size()), "special");
    int at = special && r * c ? ctx.choose(int(r * c), "at") : 0;
    const long before = live();
    {
    M m(r, c);
    std::vector<T> v;
    for (size_t e = 0; e < r * c; ++e) v.push_back(T(3 * e + 1));
    if (special && r * c) v[at] = sp[special - 1];
    std::copy(v.begin(), v.end(), m.begin());
    M const& cm = m;
    std::string s = save(k, cm);
    CHECK(contents(m, v) && m.getNbRows() == r && m.getNbColumns() == c, "saving changes:" + tag, kind_names[k]);
    int way = ctx.choose(targets, "target");
    auto where = [&] { return std::string(kind_names[k]) + " into " + target_names[way] + ": " + std::to_string(r) + "x" + std::to_string(c) + (special ? " with " + std::to_string((long double)sp[special - 1]) : ""); };
    M n(target<M>(way, r, c));
    const size_t times = 1 + ctx.choose(2, "twice");
    for (size_t q = 0; q < times; ++q) {
        load(k, s, n);
        CHECK(n.getNbRows() == r && n.getNbColumns() == c && n.getSize() == r * c, "dimension:" + tag, where() + " becomes " + std::to_string(n.getNbRows()) + "x" + std::to_string(n.getNbColumns()) + " of size " + std::to_string(n.getSize()));
        CHECK(contents(n, v), "elements:" + tag, where());
    }
    if (r * c) CHECK(n.getDataPointer() != m.getDataPointer(), "shared:" + tag, where());
    // the loaded matrix is an ordinary one
    M copy(n); n = M(); CHECK(contents(copy, v) && copy.getNbRows() == r, "copy:" + tag, where());
    n = copy; n.resize(r + 1, c + 1); CHECK(n.getSize() == (r + 1) * (c + 1) && contents(copy, v), "resize:" + tag, where());
    CHECK(save(k, copy) == s, "saved again:" + tag, where());
    ctx.outcome("restored");
    ctx.state(mc::Hash()(tag)(r)(c)(k)(special)(at)(way)(times));
    }
    CHECK(live() == before, "memory:" + tag, std::to_string(live() - before) + " blocks stay allocated");
}

/// large matrices through every kind of archive
template <class T, class P> void wide(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<M>();
    ctx.note(tag);
    auto shape = wide_shape(ctx, ctx.tier(4225, 20000)); size_t r = shape.first, c = shape.second;
    ctx.shard();
    int k = ctx.choose(KINDS, "kind"), way = ctx.choose(targets, "target");
    M m(r, c); std::vector<T> v, sp = specials<T>();
    for (size_t e = 0; e < r * c; ++e) v.push_back(e % 17 == 5 ? sp[e % sp.size()] : T(e + 1));
    std::copy(v.begin(), v.end(), m.begin());
    M const& cm = m;
    std::string s = save(k, cm);
    M n(target<M>(way, r, c));
    load(k, s, n);
    CHECK(n.getNbRows() == r && n.getNbColumns() == c && n.getSize() == r * c && contents(n, v) && contents(m, v), "wide:" + tag, std::string(kind_names[k]) + " into " + target_names[way] + ": " + std::to_string(r) + "x" + std::to_string(c));
    ctx.outcome("restored"); ctx.state(mc::Hash()("wide")(tag)(r)(c)(k)(way));
}

/// archives cut off at every byte: an exception, and the target stays a sound matrix
template <class T, class P> void cut(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<M>();
    ctx.note(tag);
    size_t r = ctx.range(0, 2, "rows"), c = ctx.range(0, ctx.tier(2, 3), "columns");
    int k = ctx.choose(KINDS, "kind"), way = ctx.choose(targets, "target");
    ctx.shard();
    M m(r, c);
    std::vector<T> v;
    for (size_t e = 0; e < r * c; ++e) { v.push_back(T(3 * e + 1)); m.begin()[e] = v.back(); }
    const std::string s = save(k, m);
    size_t len = ctx.choose(int(s.size()), "length");
    const long before = live();
    {
        M n(target<M>(way, r, c));
        const size_t nr = n.getNbRows(), nc = n.getNbColumns();
        const std::vector<T> old(n.begin(), n.end());
        bool thrown = false;
        try { load(k, s.substr(0, len), n); } catch (std::exception const&) { thrown = true; }
        auto where = [&] { return std::string(kind_names[k]) + " of " + std::to_string(r) + "x" + std::to_string(c) + " cut to " + std::to_string(len) + " of " + std::to_string(s.size()) + " bytes into " + target_names[way]; };
        if (!thrown) {   // nothing was lost but white space
            // (nobody can tell that the last number of a text has lost digits)
            std::vector<T> e = v;
            if (k == TEXT && len > s.find_last_of(" \n", s.find_last_not_of(" \n")) && n.end() - n.begin() == long(r * c) && r * c) e.back() = n.begin()[r * c - 1];
            CHECK(n.getNbRows() == r && n.getNbColumns() == c && contents(n, e), "cut archive accepted:" + tag, where());
        } else if (way == 4) {
            n = target<M>(1, 2, 3);   // a matrix which was moved from may be assigned only
        } else {
            CHECK(n.getSize() == n.getNbRows() * n.getNbColumns() && size_t(n.end() - n.begin()) == n.getSize(), "after failure:" + tag, where() + ": " + std::to_string(n.getNbRows()) + "x" + std::to_string(n.getNbColumns()) + " with " + std::to_string(n.end() - n.begin()) + " elements");
            CHECK(n.getNbRows() == nr && n.getNbColumns() == nc && contents(n, old), "changed by failure:" + tag, where() + ": " + std::to_string(n.getNbRows()) + "x" + std::to_string(n.getNbColumns()));
            for (T& x : n) x = T(5);   // every element may be written
        }
        int next = ctx.choose(4, "afterwards");
        if (next == 0) { n = m; CHECK(contents(n, v), "assigned after failure:" + tag, where()); }
        if (next == 1) { load(k, s, n); CHECK(n.getNbRows() == r && contents(n, v), "loaded after failure:" + tag, where()); }
        if (next == 2) { n.resize(2, 2); CHECK(n.getSize() == 4 && n.end() - n.begin() == 4, "resized after failure:" + tag, where()); for (T& x : n) x = T(1); }
        ctx.outcome(thrown ? "refused" : "only white space is lost");
        ctx.state(mc::Hash()(tag)(r)(c)(k)(way)(len)(next));
    }
    CHECK(live() == before, "memory after failure:" + tag, std::to_string(live() - before) + " blocks stay allocated");
}

/// archives altered in one or two places: refused, or a matrix whose dimensions agree with its memory
template <class T, class P> void altered(mc::Ctx& ctx)
{
    typedef D<T, P> M;
    const std::string tag = kind<M>();
    ctx.note(tag);
    size_t r = ctx.range(0, ctx.tier(2, 3), "rows"), c = ctx.range(0, ctx.tier(2, 3), "columns");
    int k = ctx.choose(2, "kind"), way = ctx.pick(std::vector<int>{ 0, 2, 1, 3, 5 }, "target");
    M m(r, c);
    for (size_t e = 0; e < r * c; ++e) m.begin()[e] = T(3 * e + 1);
    std::string s = save(k, m);
    // only what depends on the matrix, not the bookkeeping of the archive
    auto sample = [&](size_t r, size_t c, double first) { M m(r, c); for (size_t e = 0; e < r * c; ++e) m.begin()[e] = T(first + e); return save(k, m); };
    const std::string one = sample(2, 3, 1), two = sample(5, 7, 0.5);
    auto numbers = [](std::string const& s) {
        std::vector<std::pair<size_t, size_t>> t;
        for (size_t i = 0; i < s.size();) { if (s[i] == ' ' || s[i] == '\n') { ++i; continue; } size_t e = s.find_first_of(" \n", i); if (e == std::string::npos) e = s.size(); t.push_back({ i, e - i }); i = e; }
        return t;
    };
    std::vector<size_t> places;
    if (k == TEXT) {
        auto t1 = numbers(one), t2 = numbers(two), t = numbers(s);
        for (size_t i = 0; i < t.size(); ++i) if (i >= t1.size() || one.substr(t1[i].first, t1[i].second) != two.substr(t2[i].first, t2[i].second)) places.push_back(i);
    } else for (size_t i = 0; i < s.size(); ++i) { bool any = i >= one.size(); for (size_t b = 0; !any && b < 8 && b <= i; ++b) any = one[i - b] != two[i - b]; if (any) places.push_back(i); }
    ctx.shard();
    const size_t edits = 1 + ctx.choose(k == TEXT || ctx.thorough() ? 2 : 1, "edits");
    std::string done;
    size_t from = 0;
    for (size_t q = 0; q < edits; ++q) {
        if (from >= places.size()) throw mc::Prune();
        size_t t = from + ctx.choose(int(places.size() - from), "place");
        if (k == TEXT) {
            static const std::vector<std::string> by{ "0", "1", "2", "3", "4", "6", "18446744073709551615", "9223372036854775808", "4294967296", "-1", "x", "" };
            auto all = numbers(s); std::string b = ctx.pick(by, "by");
            if (places[t] >= all.size()) throw mc::Prune();
            done += " number " + std::to_string(places[t]) + " replaced by " + b;
            s.replace(all[places[t]].first, all[places[t]].second, b);
            if (b.empty()) q = edits;   // what follows has moved
        } else {
            int b = ctx.pick(std::vector<int>{ 0, 1, 2, 3, 0x7f, 0xff }, "by");
            done += " byte " + std::to_string(places[t]) + " replaced by " + std::to_string(b);
            s[places[t]] = char(b);
        }
        from = t + 1;
    }
    auto where = [&] { return std::string(kind_names[k]) + " of " + std::to_string(r) + "x" + std::to_string(c) + " with" + done + " into " + target_names[way]; };
    const long before = live();
    const size_t limit = blaze::verif::limit(); blaze::verif::limit() = 1 << 16;
    {
        M n(target<M>(way, r, c));
        const size_t nr = n.getNbRows(), nc = n.getNbColumns();
        const std::vector<T> old(n.begin(), n.end());
        bool thrown = false;
        try { load(k, s, n); } catch (std::exception const&) { thrown = true; }
        CHECK(n.getNbColumns() == 0 || n.getNbRows() <= 100000 / n.getNbColumns(), "altered:" + tag, where() + " gives dimensions without memory");
        CHECK(n.getSize() == n.getNbRows() * n.getNbColumns() && size_t(n.end() - n.begin()) == n.getSize(), "altered:" + tag, where() + " gives " + std::to_string(n.getNbRows()) + "x" + std::to_string(n.getNbColumns()) + " with " + std::to_string(n.getSize()) + " and " + std::to_string(n.end() - n.begin()) + " elements");
        if (thrown) CHECK(n.getNbRows() == nr && n.getNbColumns() == nc && contents(n, old), "altered changes:" + tag, where());
        if (n.getSize()) for (size_t i = 0; i < n.getNbRows(); ++i) for (size_t j = 0; j < n.getNbColumns(); ++j) n(i, j) = T(5);
        ctx.outcome(thrown ? "altered refused" : "altered taken");
        ctx.state(mc::Hash()("altered")(tag)(s)(way));
    }
    blaze::verif::limit() = limit;
    CHECK(live() == before, "memory after alteration:" + tag, std::to_string(live() - before) + " blocks stay allocated");
}

#if MC_PART == 0
mc::Register a1("altered double", altered<double, CM>, true);
mc::Register m1("double", matrices<double, CM>, true), m2("float", matrices<float, CM>, true), c1("cut double", cut<double, CM>, true), w1("wide double", wide<double, CM>, true);
#endif
} // namespace
#if MC_PART == 1
namespace bb { template <> inline std::string kind<D<int>>() { return "Dense<int>"; } }
#endif
namespace {
#if MC_PART == 1
mc::Register a2("altered float row major", altered<float, RM>, true);
mc::Register m3("double row major", matrices<double, RM>, true), m4("int", matrices<int, CM>, true), c2("cut float row major", cut<float, RM>, true), w2("wide float row major", wide<float, RM>, true);
#endif
#if MC_PART == 2
/// storages: flexible, on external memory, of fixed size, sparse
template <class T> void storages(mc::Ctx& ctx)
{
    typedef Storage<T, false, false, 0> F;
    size_t n = ctx.range(0, ctx.tier(5, 8), "size"), o = ctx.range(0, ctx.tier(5, 8), "old size");
    int k = ctx.choose(2, "kind");
    ctx.shard();
    bool source_ext = ctx.flag("source on external memory"), target_ext = ctx.flag("target on external memory");
    int end = ctx.choose(2, "cut");
    const long before = live();
    {
        std::vector<T> v, w(o, T(9)), ext;
        for (size_t e = 0; e < n; ++e) v.push_back(T(2 * e + 1));
        ext = v;
        std::unique_ptr<F> a(source_ext ? new F(ext.data(), n) : new F(n)), b(target_ext ? new F(w.data(), o) : new F(o));
        std::copy(v.begin(), v.end(), a->begin()); for (T& x : *b) x = T(9);
        F const& ca = *a;
        std::string s = save(k, ca);
        size_t len = end ? ctx.choose(int(s.size()), "length") : s.size();
        auto where = [&] { return std::to_string(n) + " elements into " + std::to_string(o) + (source_ext ? ", source external" : "") + (target_ext ? ", target external" : "") + ", " + std::to_string(len) + " of " + std::to_string(s.size()) + " bytes of " + kind_names[k]; };
        bool thrown = false;
        try { load(k, s.substr(0, len), *b); } catch (std::exception const&) { thrown = true; }
        CHECK(!thrown || end, "storage refused", where());
        if (!thrown) CHECK(b->size() == n && contents(*b, v), "storage", where());
        else CHECK(b->size() == o && contents(*b, std::vector<T>(o, T(9))), "storage changed by failure", where());
        CHECK((w == std::vector<T>(o, T(9)) && ext == v), "external memory", where());
        if (!thrown && target_ext && o) { CHECK(b->size() == 0 || b->getDataPointer() != w.data(), "loaded into external memory", where()); }
        if (!thrown) { b->resize(n + 1); CHECK(b->size() == n + 1, "resize after loading", where()); for (T& x : *b) x = T(1); CHECK((w == std::vector<T>(o, T(9))), "external memory", where()); }
        ctx.outcome(thrown ? "refused" : "restored");
        ctx.state(mc::Hash()(n)(o)(k)(source_ext)(target_ext)(len)(typeid(T).name()));
    }
    CHECK(live() == before, "memory", std::to_string(live() - before) + " blocks stay allocated");
}
mc::Register s1("storage double", storages<double>, true), s2("storage size_t", storages<size_t>, true), s3("storage float", storages<float>, true);

SCENARIO_SHARDED(fixed_storage)
{
    typedef Storage<double, false, true, 4> X;
    int k = ctx.choose(2, "kind"), special = ctx.choose(int(specials<double>().size()), "special"), at = ctx.choose(4, "at"), end = ctx.choose(2, "cut");
    ctx.shard();
    std::vector<double> v{ 1, 2, 3, 4 }, w{ 9, 9, 9, 9 }; v[at] = specials<double>()[special];
    bool ext = ctx.flag("target on external memory");
    X a; std::copy(v.begin(), v.end(), a.begin());
    std::unique_ptr<X> b(ext ? new X(w.data(), 4) : new X()); for (double& x : *b) x = 9;
    X const& ca = a; std::string s = save(k, ca);
    size_t len = end ? ctx.choose(int(s.size()), "length") : s.size();
    bool thrown = false;
    try { load(k, s.substr(0, len), *b); } catch (std::exception const&) { thrown = true; }
    CHECK(!thrown || end, "fixed storage refused", std::to_string(len));
    if (end && k == TEXT && !thrown) v[3] = b->begin()[3];   // nobody can tell that the last number of a text has lost digits
    if (!thrown) CHECK(contents(*b, v), "fixed storage", kind_names[k]);
    if (ext && !thrown) CHECK((w == v), "fixed storage leaves its memory", kind_names[k]);
    CHECK(b->size() == 4 && b->end() - b->begin() == 4, "fixed storage size", "");
    ctx.outcome(thrown ? "refused" : "restored"); ctx.state(mc::Hash()(k)(special)(at)(len)(ext));
}

SCENARIO_SHARDED(sparse_storage)
{
    typedef SparseStorage<double, size_t, false, 0> X;
    size_t n = ctx.range(0, 4, "values"), o = ctx.range(0, 4, "offsets");
    int k = ctx.choose(2, "kind");
    ctx.shard();
    size_t n2 = ctx.range(0, 3, "old values"), o2 = ctx.range(0, 3, "old offsets");
    int end = ctx.choose(2, "cut");
    const long before = live();
    {
        X a(n, o), b(n2, o2);
        std::vector<double> v; std::vector<size_t> key, off;
        for (size_t e = 0; e < n; ++e) { v.push_back(a.begin()[e] = 1.5 * e); key.push_back(a.beginKey()[e] = 7 - e); }
        for (size_t e = 0; e < o; ++e) off.push_back(a.beginOffset()[e] = 3 * e);
        for (double& x : b) x = 9;
        for (auto i = b.beginKey(); i != b.endKey(); ++i) *i = 9;
        for (auto i = b.beginOffset(); i != b.endOffset(); ++i) *i = 9;
        X const& ca = a; std::string s = save(k, ca);
        size_t len = end ? ctx.choose(int(s.size()), "length") : s.size();
        bool thrown = false;
        try { load(k, s.substr(0, len), b); } catch (std::exception const&) { thrown = true; }
        CHECK(!thrown || end, "sparse storage refused", std::to_string(len));
        if (!thrown) {
            CHECK(b.nnz() == n && b.sizeOffset() == o, "sparse storage size", std::to_string(b.nnz()) + ", " + std::to_string(b.sizeOffset()));
            CHECK((std::vector<double>(b.begin(), b.end()) == v && std::vector<size_t>(b.beginKey(), b.endKey()) == key && std::vector<size_t>(b.beginOffset(), b.endOffset()) == off), "sparse storage", "");
        } else for (double& x : b) x = 1;
        ctx.outcome(thrown ? "refused" : "restored"); ctx.state(mc::Hash()(n)(o)(k)(n2)(o2)(len));
    }
    CHECK(live() == before, "memory", std::to_string(live() - before) + " blocks stay allocated");
}

/// dimensions alone
SCENARIO_SHARDED(dimension)
{
    const std::vector<size_t> d{ 0, 1, 2, 7, size_t(1) << 32, ~size_t(0) };
    size_t r = ctx.pick(d, "rows"), c = ctx.pick(d, "columns");
    if (c && r > ~size_t(0) / c) throw mc::Prune();   // there are no such dimensions
    ctx.shard();
    int k = ctx.choose(2, "kind");
    Dimension<VariableSize, ColumnMajor> a(r, c), b(ctx.pick(std::vector<size_t>{ 0, 1, 2, 7, size_t(1) << 32 }, "old"), 3);
    Dimension<VariableSize, ColumnMajor> const& ca = a;
    load(k, save(k, ca), b);
    CHECK(a == b && b.getNbRows() == r && b.getNbColumns() == c && b.getSize() == r * c, "dimension alone", std::to_string(b.getNbRows()));
    ctx.outcome("restored"); ctx.state(mc::Hash()(r)(c)(k));
}
#endif
#if MC_PART == 3
/// readXML/writeXML/readBinary/writeBinary: round trips, overwriting, missing and cut files
template <class X> struct Files;
template <> struct Files<double> { static std::vector<double> values() { auto v = specials<double>(); return v; } };
template <> struct Files<int> { static std::vector<int> values() { return { 0, -1, 42, std::numeric_limits<int>::max(), std::numeric_limits<int>::lowest() }; } };
template <> struct Files<std::string> { static std::vector<std::string> values() { return { "", "a", "a b", "<x>&\"'", "new\nline", std::string(300, 'z') }; } };
template <> struct Files<boost::filesystem::path> { static std::vector<boost::filesystem::path> values() { return { "", "/", "a/b c/d.txt", "../x", "<&>" }; } };
template <> struct Files<std::vector<double>> { static std::vector<std::vector<double>> values() { return { {}, { 1.0 }, { 1.0 / 3, -0.0, 1e300 } }; } };
template <class X> struct Files<std::pair<X, int>>;

template <class X> void files(mc::Ctx& ctx)
{
    const auto vals = Files<X>::values();
    const std::string tag = typeid(X).name();
    bool xml = ctx.flag("xml");
    int i = ctx.choose(int(vals.size()), "value"), j = ctx.choose(int(vals.size()), "old value");
    ctx.shard();
    int present = ctx.choose(3, "file");   // not there, there with another value, a directory
    int mode = ctx.choose(3, "overwrite"); bool overwrite = mode != 0;   // no, yes, as it is if nothing is said
    ::unlink("f"); ::rmdir("f");
    auto wr = [&](X x, bool over) { if (xml) writeXML(x, "value", "f", over); else writeBinary(x, "value", "f", over); };
    auto rd = [&](X& x) { if (xml) readXML(x, "value", "f"); else readBinary(x, "value", "f"); };
    if (present == 1) wr(vals[j], true);
    if (present == 2) ::mkdir("f", 0700);
    const std::string old = present == 1 ? slurp("f") : "";
    if (present == 0) {
        X y = vals[j]; bool thrown = false;
        try { rd(y); } catch (BlasBoosterException const&) { thrown = true; }
        CHECK(thrown && y == vals[j], "reading a missing file:" + tag, "");
    }
    bool thrown = false; std::string what;
    try { if (mode == 2) { X v = vals[i]; if (xml) writeXML(v, "value", "f"); else writeBinary(v, "value", "f"); } else wr(vals[i], overwrite); } catch (std::exception const& e) { thrown = true; what = e.what(); }
    bool expect = present == 2 || (present == 1 && !overwrite);
    CHECK(thrown == expect, "writing:" + tag, std::string(expect ? "no exception" : "exception ") + what);
    if (present == 1 && !overwrite) CHECK(slurp("f") == old, "overwritten:" + tag, "");
    if (present != 2) {
        const X& e = thrown ? vals[j] : vals[i];
        X y = vals[j]; rd(y);
        CHECK(y == e, "read back:" + tag, "");
        if constexpr (std::is_same<X, double>::value) CHECK(same(y, e), "read back bits:" + tag, std::to_string(e));
        const std::string s = slurp("f");
        size_t len = ctx.choose(int(s.size()) + 1, "length");
        spit("f", s.substr(0, len));
        X z = vals[j]; thrown = false;
        try { rd(z); } catch (std::exception const&) { thrown = true; }
        if (!thrown) CHECK(z == e, "cut file accepted:" + tag, (xml ? "xml" : "binary") + std::string(" cut to ") + std::to_string(len) + " of " + std::to_string(s.size()));
        if (len == s.size()) CHECK(!thrown, "read again:" + tag, "");
        ctx.outcome(thrown ? "refused" : "restored");
        ctx.state(mc::Hash()(tag)(xml)(i)(j)(present)(mode)(len));
    } else ctx.outcome("refused");
    ::unlink("f"); ::rmdir("f");
}
mc::Register f1("file double", files<double>, true), f2("file int", files<int>, true), f3("file string", files<std::string>, true), f4("file path", files<boost::filesystem::path>, true), f5("file vector", files<std::vector<double>>, true);
#endif

} // namespace
