// C18: storages own, copy, move and free their memory correctly in every history.
#define MC_MAIN
#include "bb.h"
using namespace bb;

namespace {

/// element type which counts its objects, so that memory obtained by new[] is watched as well
struct Tok {
    double v;
    static long alive;
    Tok(double v = 0.0) : v(v) { ++alive; }
    Tok(Tok const& o) : v(o.v) { ++alive; }
    Tok& operator=(Tok const& o) = default;
    ~Tok() { --alive; v = -777.0; }
    operator double() const { return v; }
};
long Tok::alive = 0;
template <class T> std::string tn(); template <> std::string tn<double>() { return "double"; } template <> std::string tn<float>() { return "float"; } template <> std::string tn<Tok>() { return "class"; } template <> std::string tn<size_t>() { return "size_t"; }

template <class T> using Flexible = Storage<T, false, false, 0>;
template <class T> using Heap = Storage<T, false, true, 3>;
template <class T> using Stack = Storage<T, true, true, 3>;

typedef std::shared_ptr<std::vector<double>> Mem;      // reference: a piece of memory
struct Model { bool there = false, known = true; Mem mem; int ext = -1; };   // ext: number of the external memory it lies in

template <class St, class T> struct World {
    std::unique_ptr<St> s[3]; Model m[3];
    std::vector<T> ext[2]; Mem extm[2];
    double next = 100;
    std::vector<std::string> log;
    World() { for (int k = 0; k < 2; ++k) { for (int i = 0; i < 3; ++i) ext[k].push_back(T(10 * (k + 1) + i)); extm[k] = std::make_shared<std::vector<double>>(ext[k].begin(), ext[k].end()); } }
    std::string history() const { std::string t; for (auto const& x : log) t += (t.empty() ? "" : ", ") + x; return t; }
    void own(int i, std::vector<double> v) { m[i].there = true; m[i].known = true; m[i].mem = std::make_shared<std::vector<double>>(std::move(v)); m[i].ext = -1; }
};

template <class St, class T> void verify(mc::Ctx& ctx, World<St, T>& w, std::string const& tag)
{
    for (int k = 0; k < 2; ++k) for (size_t e = 0; e < 3; ++e)
        CHECK(double(w.ext[k][e]) == (*w.extm[k])[e], "external memory:" + tag, "element " + std::to_string(e) + " of external memory " + std::to_string(k) + " is " + std::to_string(double(w.ext[k][e])) + " instead of " + std::to_string((*w.extm[k])[e]) + " after " + w.history());
    for (int i = 0; i < 3; ++i) {
        Model const& m = w.m[i];
        if (!m.there || !m.known) continue;
        St& s = *w.s[i]; St const& c = s;
        std::string who = "storage " + std::to_string(i);
        CHECK(s.size() == m.mem->size(), "size:" + tag, who + " has size " + std::to_string(s.size()) + " instead of " + std::to_string(m.mem->size()) + " after " + w.history());
        CHECK(size_t(s.end() - s.begin()) == s.size() && size_t(c.end() - c.begin()) == s.size(), "range:" + tag, who + " after " + w.history());
        if (s.size()) CHECK(&*s.begin() == s.getDataPointer() && &*c.begin() == c.getDataPointer() && s.getDataPointer() == c.getDataPointer(), "pointer:" + tag, who + " after " + w.history());
        for (size_t e = 0; e < s.size(); ++e) CHECK(double(c.begin()[e]) == (*m.mem)[e], "contents:" + tag, "element " + std::to_string(e) + " of " + who + " is " + std::to_string(double(c.begin()[e])) + " instead of " + std::to_string((*m.mem)[e]) + " after " + w.history());
        if (m.ext >= 0) CHECK(s.getDataPointer() == w.ext[m.ext].data(), "view:" + tag, who + " is no view of external memory any more after " + w.history());
        else if (s.size()) {
            for (int k = 0; k < 2; ++k) CHECK(s.getDataPointer() != w.ext[k].data(), "view:" + tag, who + " uses external memory after " + w.history());
            for (int j = 0; j < i; ++j) if (w.m[j].there && w.m[j].known && w.m[j].mem->size()) CHECK(s.getDataPointer() != w.s[j]->getDataPointer(), "shared:" + tag, who + " and " + std::to_string(j) + " share their memory after " + w.history());
        }
    }
}

template <class St, class T> using Action = std::pair<std::string, std::function<bool(World<St, T>&)>>;
std::string nm(int i) { return "s" + std::to_string(i); }

template <class St, class T> void numbered(World<St, T>& w, int i) { for (size_t e = 0; e < w.s[i]->size(); ++e) { w.s[i]->begin()[e] = T(w.next); (*w.m[i].mem)[e] = w.next; w.next += 1; } }

// actions every kind of storage has
template <class St, class T> void common(std::vector<Action<St, T>>& a, bool flexible)
{
    typedef World<St, T> W;
    auto def = [&](std::string n, std::function<bool(W&)> f) { a.push_back({ n, f }); };
    for (int i = 0; i < 3; ++i) {
        def(nm(i) + " destroyed", [i](W& w) { if (!w.m[i].there) return false; w.s[i].reset(); w.m[i] = Model(); return true; });
        def(nm(i) + " written", [i](W& w) { if (!w.m[i].there || !w.m[i].known || !w.m[i].mem->size()) return false; size_t e = w.s[i]->size() - 1; w.s[i]->getDataPointer()[e] = T(w.next); (*w.m[i].mem)[e] = w.next; w.next += 1; return true; });
        def(nm(i) + " = " + nm(i), [i](W& w) { if (!w.m[i].there || !w.m[i].known) return false; St& s = *w.s[i]; s = static_cast<St const&>(s); return true; });
        def(nm(i) + " = move(" + nm(i) + ")", [i](W& w) { if (!w.m[i].there || !w.m[i].known) return false; St& s = *w.s[i]; s = std::move(s); return true; });
        for (int j = 0; j < 3; ++j) if (i != j) {
            def(nm(i) + " copied from " + nm(j), [i, j](W& w) { if (w.m[i].there || !w.m[j].there || !w.m[j].known) return false; w.s[i].reset(new St(static_cast<St const&>(*w.s[j]))); w.own(i, *w.m[j].mem); return true; });
            def(nm(i) + " moved from " + nm(j), [i, j, flexible](W& w) {
                if (w.m[i].there || !w.m[j].there || !w.m[j].known) return false;
                w.s[i].reset(new St(std::move(*w.s[j])));
                if (flexible) { w.m[i] = w.m[j]; w.own(j, {}); } else { w.own(i, *w.m[j].mem); w.m[j].known = false; }
                return true; });
        }
    }
}

template <class T> std::vector<Action<Flexible<T>, T>> flexible_actions()
{
    typedef Flexible<T> St; typedef World<St, T> W;
    std::vector<Action<St, T>> a;
    common<St, T>(a, true);
    auto def = [&](std::string n, std::function<bool(W&)> f) { a.push_back({ n, f }); };
    for (int i = 0; i < 3; ++i) {
        def(nm(i) + " default constructed", [i](W& w) { if (w.m[i].there) return false; w.s[i].reset(new St()); w.own(i, {}); return true; });
        for (size_t n : { 0, 2, 3 }) def(nm(i) + " of size " + std::to_string(n), [i, n](W& w) { if (w.m[i].there) return false; w.s[i].reset(new St(n)); w.own(i, std::vector<double>(n)); numbered(w, i); return true; });
        def(nm(i) + " from list", [i](W& w) { if (w.m[i].there) return false; double x = w.next; w.next += 2; w.s[i].reset(new St({ T(x), T(x + 1) })); w.own(i, { x, x + 1 }); return true; });
        def(nm(i) + " converted from fixed size", [i](W& w) { if (w.m[i].there) return false; Heap<T> h; for (int e = 0; e < 3; ++e) h.begin()[e] = T(w.next + e); std::vector<double> v{ w.next, w.next + 1, w.next + 2 }; w.next += 3; w.s[i].reset(new St(h)); w.own(i, v); return true; });
        if constexpr (!std::is_same<T, Tok>::value)
            def(nm(i) + " converted from float", [i](W& w) { if (w.m[i].there) return false; Flexible<float> h(2); for (int e = 0; e < 2; ++e) h.begin()[e] = float(w.next + e); std::vector<double> v{ w.next, w.next + 1 }; w.next += 2; w.s[i].reset(new St(h)); w.own(i, v); return true; });
        for (int k = 0; k < 2; ++k) def(nm(i) + " on external memory " + std::to_string(k), [i, k](W& w) { if (w.m[i].there) return false; w.s[i].reset(new St(w.ext[k].data(), 3)); w.m[i].there = w.m[i].known = true; w.m[i].mem = w.extm[k]; w.m[i].ext = k; return true; });
        for (size_t n : { 0, 2, 3 }) def(nm(i) + " resized to " + std::to_string(n), [i, n](W& w) {
            if (!w.m[i].there) return false;
            bool thrown = false;
            try { w.s[i]->resize(n); } catch (std::runtime_error const&) { thrown = true; }
            if (w.m[i].ext >= 0 && n != w.m[i].mem->size()) { if (!thrown) throw mc::Failure{ "resize", "external memory is resized" }; return true; }
            if (thrown) throw mc::Failure{ "resize", "resizing throws after " + w.history() };
            if (n != w.m[i].mem->size()) { w.own(i, std::vector<double>(n)); if (w.s[i]->size() != n) throw mc::Failure{ "resize", "wrong size" }; numbered(w, i); }
            return true; });
        def(nm(i) + " filled", [i](W& w) { if (!w.m[i].there) return false; w.s[i]->fill(T(w.next)); for (double& x : *w.m[i].mem) x = w.next; w.next += 1; return true; });
        for (int j = 0; j < 3; ++j) if (i != j) {
            // a storage on external memory is assigned as such, contents otherwise
            def(nm(i) + " = " + nm(j), [i, j](W& w) { if (!w.m[i].there || !w.m[j].there) return false; *w.s[i] = static_cast<St const&>(*w.s[j]); if (w.m[j].ext >= 0) w.m[i] = w.m[j]; else w.own(i, *w.m[j].mem); return true; });
            def(nm(i) + " = move(" + nm(j) + ")", [i, j](W& w) { if (!w.m[i].there || !w.m[j].there) return false; *w.s[i] = std::move(*w.s[j]); w.m[i] = w.m[j]; w.own(j, {}); return true; });
        }
        for (int j = 0; j <= i; ++j) def("swap(" + nm(j) + "," + nm(i) + ")", [i, j](W& w) { if (!w.m[i].there || !w.m[j].there) return false; using std::swap; swap(*w.s[i], *w.s[j]); std::swap(w.m[i], w.m[j]); return true; });
    }
    return a;
}

template <class St, class T> std::vector<Action<St, T>> fixed_actions()
{
    typedef World<St, T> W;
    std::vector<Action<St, T>> a;
    common<St, T>(a, false);
    auto def = [&](std::string n, std::function<bool(W&)> f) { a.push_back({ n, f }); };
    const bool heap = std::is_same<St, Heap<T>>::value;
    for (int i = 0; i < 3; ++i) {
        def(nm(i) + " default constructed", [i](W& w) { if (w.m[i].there) return false; w.s[i].reset(new St()); w.own(i, std::vector<double>(3)); numbered(w, i); return true; });
        def(nm(i) + " from list", [i](W& w) { if (w.m[i].there) return false; double x = w.next; w.next += 3; w.s[i].reset(new St({ T(x), T(x + 1), T(x + 2) })); w.own(i, { x, x + 1, x + 2 }); return true; });
        def(nm(i) + " from long list", [i](W& w) { if (w.m[i].there) return false; try { w.s[i].reset(new St({ T(1), T(2), T(3), T(4) })); } catch (std::runtime_error const&) { return true; } throw mc::Failure{ "long list", "a list of four elements is accepted for a storage of three" }; });
        if constexpr (std::is_same<St, Heap<T>>::value) {
            def(nm(i) + " from short list", [i](W& w) { if (w.m[i].there) return false; try { w.s[i].reset(new St({ T(1), T(2) })); } catch (std::runtime_error const&) { return true; } throw mc::Failure{ "short list", "a list of two elements is accepted for a storage of three" }; });
            for (size_t n : { 2, 3 }) def(nm(i) + " converted from flexible size " + std::to_string(n), [i, n](W& w) {
                if (w.m[i].there) return false;
                Flexible<T> f(n); std::vector<double> v; for (size_t e = 0; e < n; ++e) { f.begin()[e] = T(w.next); v.push_back(w.next); w.next += 1; }
                try { w.s[i].reset(new St(f)); } catch (std::runtime_error const&) { if (n == 3) throw mc::Failure{ "conversion", "conversion of a storage of three elements throws" }; return true; }
                if (n != 3) throw mc::Failure{ "conversion", "a storage of two elements is converted to one of three" };
                w.own(i, v); return true; });
            for (int k = 0; k < 2; ++k) def(nm(i) + " on external memory " + std::to_string(k), [i, k](W& w) { if (w.m[i].there) return false; w.s[i].reset(new St(w.ext[k].data(), 3)); w.m[i].there = w.m[i].known = true; w.m[i].mem = w.extm[k]; w.m[i].ext = k; return true; });
        }
        for (int j = 0; j < 3; ++j) if (i != j) {
            // contents are assigned; a moved-from storage of fixed size may only be destroyed
            def(nm(i) + " = " + nm(j), [i, j](W& w) { if (!w.m[i].there || !w.m[i].known || !w.m[j].there || !w.m[j].known) return false; *w.s[i] = static_cast<St const&>(*w.s[j]); std::vector<double> v = *w.m[j].mem; *w.m[i].mem = v; return true; });
            if (heap) def(nm(i) + " = move(" + nm(j) + ")", [i, j](W& w) { if (!w.m[i].there || !w.m[i].known || !w.m[j].there || !w.m[j].known) return false; *w.s[i] = std::move(*w.s[j]); std::swap(w.m[i], w.m[j]); w.m[j].known = false; return true; });
        }
        if constexpr (std::is_same<St, Heap<T>>::value)
            for (int j = 0; j <= i; ++j) def("swap(" + nm(j) + "," + nm(i) + ")", [i, j](W& w) { if (!w.m[i].there || !w.m[j].there || !w.m[i].known || !w.m[j].known) return false; using std::swap; swap(*w.s[i], *w.s[j]); std::swap(w.m[i], w.m[j]); return true; });
    }
    return a;
}

template <class St, class T> void explore(mc::Ctx& ctx, std::vector<Action<St, T>> const& actions, std::vector<std::vector<std::string>> const& starts, int depth, std::string const& tag)
{
    long base = bb::live(), alive = Tok::alive;
    ctx.note(tag);
    {
        World<St, T> w;
        for (auto const& n : ctx.pick(starts, "start")) {
            bool found = false;
            for (auto const& a : actions) if (a.first == n) { found = a.second(w); w.log.push_back(n); }
            if (!found) { std::fprintf(stderr, "no such action: %s\n", n.c_str()); std::_Exit(3); }
        }
        verify(ctx, w, tag);
        for (int d = 0; d < depth; ++d) {
            int k = ctx.choose(int(actions.size()) + 1, "operation");
            if (d == 0) ctx.shard();
            if (k == 0) break;
            if (!actions[k - 1].second(w)) throw mc::Prune();
            w.log.push_back(actions[k - 1].first);
            verify(ctx, w, tag);
            mc::Hash h; h(tag); for (int i = 0; i < 3; ++i) { h(w.m[i].there)(w.m[i].known)(w.m[i].ext); if (w.m[i].mem) h(w.m[i].mem->size()); }
            ctx.state(h);
        }
        for (int i = 0; i < 3; ++i) w.s[i].reset();
        for (int i = 0; i < 3; ++i) w.m[i] = Model();
        verify(ctx, w, tag + " destroyed");
        CHECK(bb::live() == base, "allocations:" + tag, std::to_string(bb::live() - base) + " blocks too many after " + w.history());
        w.ext[0].clear(); w.ext[1].clear();
        CHECK(Tok::alive == alive, "elements:" + tag, std::to_string(Tok::alive - alive) + " elements too many after " + w.history());
        ctx.outcome(tag);
    }
}

const std::vector<std::vector<std::string>> flexible_starts{
    {}, { "s0 of size 3" }, { "s0 of size 3", "s1 of size 2" }, { "s0 on external memory 0", "s1 of size 3" }, { "s0 on external memory 0", "s1 on external memory 1" },
    { "s0 on external memory 0", "s1 on external memory 0", "s2 of size 3" }, { "s0 default constructed", "s1 on external memory 1" }, { "s0 of size 0", "s1 of size 3", "s2 of size 3" } };
const std::vector<std::vector<std::string>> heap_starts{ {}, { "s0 from list", "s1 default constructed" }, { "s0 on external memory 0", "s1 from list" }, { "s0 on external memory 0", "s1 on external memory 1" }, { "s0 on external memory 0", "s1 on external memory 0", "s2 from list" } };
const std::vector<std::vector<std::string>> stack_starts{ {}, { "s0 from list", "s1 default constructed" } };

template <class T> void flexible(mc::Ctx& ctx) { static const auto a = flexible_actions<T>(); explore<Flexible<T>, T>(ctx, a, flexible_starts, 3, "flexible<" + tn<T>() + ">"); }
template <class T> void heap(mc::Ctx& ctx) { static const auto a = fixed_actions<Heap<T>, T>(); explore<Heap<T>, T>(ctx, a, heap_starts, 3, "fixed size<" + tn<T>() + ">"); }
template <class T> void stack(mc::Ctx& ctx) { static const auto a = fixed_actions<Stack<T>, T>(); explore<Stack<T>, T>(ctx, a, stack_starts, 3, "on stack<" + tn<T>() + ">"); }
template <class T> void flexible_deep(mc::Ctx& ctx) { static const auto a = flexible_actions<T>(); explore<Flexible<T>, T>(ctx, a, flexible_starts, 4, "flexible<" + tn<T>() + ">"); }
template <class T> void heap_deep(mc::Ctx& ctx) { static const auto a = fixed_actions<Heap<T>, T>(); explore<Heap<T>, T>(ctx, a, heap_starts, 4, "fixed size<" + tn<T>() + ">"); }

mc::Register r1("flexible double", flexible<double>, true), r2("flexible class", flexible<Tok>, true), r3("flexible size_t", flexible<size_t>, true);
mc::Register r4("heap double", heap<double>, true), r5("heap class", heap<Tok>, true), r6("stack double", stack<double>, true), r7("stack class", stack<Tok>, true);
mc::Register d1("flexible class deep", flexible_deep<Tok>, true, true), d2("heap class deep", heap_deep<Tok>, true, true);

// sparse storages: three arrays which belong together
struct SModel { bool there = false; std::vector<double> v; std::vector<size_t> k, o; };
typedef SparseStorage<double, size_t, false, 0> SS;
struct SWorld { std::unique_ptr<SS> s[3]; SModel m[3]; double next = 1; std::vector<std::string> log; std::string history() const { std::string t; for (auto const& x : log) t += (t.empty() ? "" : ", ") + x; return t; } };
void sfill(SWorld& w, int i, size_t n, size_t o)
{
    SModel& m = w.m[i]; m.there = true; m.v.assign(n, 0); m.k.assign(n, 0); m.o.assign(o, 0);
    if (w.s[i]->nnz() != n || w.s[i]->sizeOffset() != o) throw mc::Failure{ "sparse size", std::to_string(w.s[i]->nnz()) + " elements and " + std::to_string(w.s[i]->sizeOffset()) + " offsets instead of " + std::to_string(n) + " and " + std::to_string(o) + " after " + w.history() };
    for (size_t e = 0; e < n; ++e) { w.s[i]->begin()[e] = m.v[e] = w.next; w.s[i]->beginKey()[e] = m.k[e] = size_t(w.next) + 1000; w.next += 1; }
    for (size_t e = 0; e < o; ++e) { w.s[i]->beginOffset()[e] = m.o[e] = size_t(w.next) + 2000; w.next += 1; }
}
void sverify(mc::Ctx& ctx, SWorld& w)
{
    for (int i = 0; i < 3; ++i) if (w.m[i].there) {
        SS const& s = *w.s[i]; SModel const& m = w.m[i];
        CHECK(s.nnz() == m.v.size() && s.sizeOffset() == m.o.size(), "sparse size", nm(i) + " after " + w.history());
        CHECK((std::vector<double>(s.begin(), s.end()) == m.v), "sparse values", nm(i) + " after " + w.history());
        CHECK((std::vector<size_t>(s.beginKey(), s.endKey()) == m.k), "sparse keys", nm(i) + " after " + w.history());
        CHECK((std::vector<size_t>(s.beginOffset(), s.endOffset()) == m.o), "sparse offsets", nm(i) + " after " + w.history());
    }
}
typedef std::pair<std::string, std::function<bool(SWorld&)>> SAction;
std::vector<SAction> sparse_actions()
{
    std::vector<SAction> a;
    auto def = [&](std::string n, std::function<bool(SWorld&)> f) { a.push_back({ n, f }); };
    for (int i = 0; i < 3; ++i) {
        def(nm(i) + " default constructed", [i](SWorld& w) { if (w.m[i].there) return false; w.s[i].reset(new SS()); sfill(w, i, 0, 0); return true; });
        for (auto sz : { std::pair<size_t, size_t>{ 2, 3 }, { 3, 3 }, { 0, 2 } }) {
            def(nm(i) + " of size " + std::to_string(sz.first) + "/" + std::to_string(sz.second), [i, sz](SWorld& w) { if (w.m[i].there) return false; w.s[i].reset(new SS(sz.first, sz.second)); sfill(w, i, sz.first, sz.second); return true; });
            def(nm(i) + " resized to " + std::to_string(sz.first) + "/" + std::to_string(sz.second), [i, sz](SWorld& w) { if (!w.m[i].there) return false; w.s[i]->resize(sz.first, sz.second); sfill(w, i, sz.first, sz.second); return true; });
        }
        for (size_t n : { 0, 1 }) def(nm(i) + " truncated to " + std::to_string(n), [i, n](SWorld& w) { if (!w.m[i].there || n > w.m[i].v.size()) return false; w.s[i]->truncate(n); w.m[i].v.resize(n); w.m[i].k.resize(n); return true; });
        def(nm(i) + " destroyed", [i](SWorld& w) { if (!w.m[i].there) return false; w.s[i].reset(); w.m[i] = SModel(); return true; });
        def(nm(i) + " = " + nm(i), [i](SWorld& w) { if (!w.m[i].there) return false; SS& s = *w.s[i]; s = static_cast<SS const&>(s); return true; });
        def(nm(i) + " converted", [i](SWorld& w) { if (w.m[i].there) return false; SparseStorage<float, size_t, false, 0> f(2, 3); for (int e = 0; e < 2; ++e) { f.begin()[e] = float(e + 5); f.beginKey()[e] = e + 6; } for (int e = 0; e < 3; ++e) f.beginOffset()[e] = e + 7; w.s[i].reset(new SS(f)); w.m[i].there = true; w.m[i].v = { 5, 6 }; w.m[i].k = { 6, 7 }; w.m[i].o = { 7, 8, 9 }; return true; });
        for (int j = 0; j < 3; ++j) if (i != j) {
            def(nm(i) + " copied from " + nm(j), [i, j](SWorld& w) { if (w.m[i].there || !w.m[j].there) return false; w.s[i].reset(new SS(static_cast<SS const&>(*w.s[j]))); w.m[i] = w.m[j]; return true; });
            def(nm(i) + " moved from " + nm(j), [i, j](SWorld& w) { if (w.m[i].there || !w.m[j].there) return false; w.s[i].reset(new SS(std::move(*w.s[j]))); w.m[i] = w.m[j]; w.s[j]->resize(1, 1); sfill(w, j, 1, 1); return true; });
            def(nm(i) + " = " + nm(j), [i, j](SWorld& w) { if (!w.m[i].there || !w.m[j].there) return false; *w.s[i] = static_cast<SS const&>(*w.s[j]); w.m[i] = w.m[j]; return true; });
            def(nm(i) + " = move(" + nm(j) + ")", [i, j](SWorld& w) { if (!w.m[i].there || !w.m[j].there) return false; *w.s[i] = std::move(*w.s[j]); w.m[i] = w.m[j]; w.s[j]->resize(1, 1); sfill(w, j, 1, 1); return true; });
            if (i < j) def("swap(" + nm(i) + "," + nm(j) + ")", [i, j](SWorld& w) { if (!w.m[i].there || !w.m[j].there) return false; using std::swap; swap(*w.s[i], *w.s[j]); std::swap(w.m[i], w.m[j]); return true; });
        }
    }
    return a;
}
template <int Quick, int Thorough> void sparse_storage(mc::Ctx& ctx)
{
    static const auto actions = sparse_actions();
    long base = bb::live();
    ctx.note("sparse");
    {
        SWorld w;
        int depth = ctx.tier(Quick, Thorough);
        if (ctx.flag("start filled")) { w.s[0].reset(new SS(2, 3)); sfill(w, 0, 2, 3); w.s[1].reset(new SS(3, 3)); sfill(w, 1, 3, 3); }
        for (int d = 0; d < depth; ++d) {
            int k = ctx.choose(int(actions.size()) + 1, "operation");
            if (d == 0) ctx.shard();
            if (k == 0) break;
            if (!actions[k - 1].second(w)) throw mc::Prune();
            w.log.push_back(actions[k - 1].first);
            sverify(ctx, w);
            mc::Hash h; h("sparse"); for (int i = 0; i < 3; ++i) h(w.m[i].there)(w.m[i].v.size())(w.m[i].o.size());
            ctx.state(h);
        }
        for (int i = 0; i < 3; ++i) w.s[i].reset();
        CHECK(bb::live() == base, "sparse allocations", std::to_string(bb::live() - base) + " blocks too many after " + w.history());
    }
    ctx.outcome("sparse");
}
mc::Register s1("sparse", sparse_storage<3, 4>, true);

// fixed size sparse storage
void fixed_sparse(mc::Ctx& ctx)
{
    typedef SparseStorage<double, size_t, true, 3> F;
    ctx.note("fixed sparse");
    F s[3]; std::vector<double> m[3];
    double next = 1;
    for (int i = 0; i < 3; ++i) { m[i].assign(3, 0); CHECK((std::vector<double>(s[i].begin(), s[i].end()) == m[i]), "fixed sparse", "not zero at first"); }
    for (int d = 0; d < ctx.tier(4, 5); ++d) {
        int k = ctx.choose(1 + 3 + 9 + 9, "operation");
        if (k-- == 0) break;
        if (k < 3) { for (int e = 0; e < 3; ++e) s[k].begin()[e] = m[k][e] = next++; }
        else if ((k -= 3) < 9) { int i = k / 3, j = k % 3; s[i] = static_cast<F const&>(s[j]); m[i] = std::vector<double>(m[j]); }
        else { k -= 9; int i = k / 3, j = k % 3; F t(s[j]); s[i] = t; m[i] = std::vector<double>(m[j]); }
        for (int i = 0; i < 3; ++i) CHECK((s[i].size() == 3 && std::vector<double>(s[i].begin(), s[i].end()) == m[i]), "fixed sparse", "wrong contents");
        ctx.state(mc::Hash()("fixed sparse")(m[0])(m[1])(m[2]));
    }
    ctx.outcome("fixed sparse");
}
mc::Register s2("fixed sparse", fixed_sparse);

/// one or two operations on storages of every size
template <class T> void wide(mc::Ctx& ctx)
{
    static const std::vector<size_t> longest{ 40000, 70000 };
    size_t n = ctx.pick(ctx.flag("long") ? longest : big_sides(ctx.thorough()), "size"), m = ctx.pick(std::vector<size_t>{ 0, 3, n, n + 1, 2 * n, n > 1000 ? 7 : n * n }, "other size");
    ctx.shard();
    static const char* names[] = { "copied", "moved", "assigned", "assigned by move", "swapped", "resized", "filled", "converted", "converted from float", "on external memory", "external memory assigned", "external memory resized", "written" };
    int op = ctx.choose(13, "operation");
    std::string tag = std::string("wide ") + names[op] + "<" + tn<T>() + ">", what = std::to_string(n) + " and " + std::to_string(m); ctx.note(tag);
    long base = bb::live(), alive = Tok::alive;
    {
        typedef Flexible<T> St;
        auto value = [](size_t e) { return double(1 + (e * 37) % 8191); };
        auto other = [](size_t e) { return -double(1 + (e * 53) % 8191); };
        std::vector<T> memory(n + 2);
        for (size_t e = 0; e < n + 2; ++e) memory[e] = T(e < 1 || e > n ? 4711 : value(e - 1));
        St x(n), y(m);
        for (size_t e = 0; e < n; ++e) x.begin()[e] = T(value(e));
        for (size_t e = 0; e < m; ++e) y.begin()[e] = T(other(e));
        auto equal = [&](St const& s, size_t size, auto f) { if (s.size() != size || size_t(s.end() - s.begin()) != size) return false; for (size_t e = 0; e < size; ++e) if (double(s.begin()[e]) != f(e)) return false; return true; };
        auto is = [&](St const& s, bool first, char const* which) { bool ok = first ? equal(s, n, value) : equal(s, m, [&](size_t e) { return double(T(other(e))); }); CHECK(ok, "contents:" + tag, std::string(which) + ", " + what); };
        switch (op) {
        case 0: { St z(static_cast<St const&>(x)); is(z, true, "copy"); is(x, true, "original"); CHECK(z.getDataPointer() != x.getDataPointer(), "shared:" + tag, what); z.begin()[n - 1] = T(9999); is(x, true, "original after the copy was written"); break; }
        case 1: { T const* p = x.getDataPointer(); St z(std::move(x)); is(z, true, "new one"); CHECK(z.getDataPointer() == p, "memory:" + tag, what); CHECK(x.size() == 0, "moved from:" + tag, what); break; }
        case 2: { y = static_cast<St const&>(x); is(y, true, "left"); is(x, true, "right"); CHECK(y.getDataPointer() != x.getDataPointer(), "shared:" + tag, what); break; }
        case 3: { y = std::move(x); is(y, true, "left"); break; }
        case 4: { using std::swap; swap(x, y); is(x, false, "left"); is(y, true, "right"); break; }
        case 5: { x.resize(m); CHECK(x.size() == m, "size:" + tag, what); for (size_t e = 0; e < m; ++e) x.begin()[e] = T(other(e)); is(x, false, "resized"); is(y, false, "other"); x.resize(n); for (size_t e = 0; e < n; ++e) x.begin()[e] = T(value(e)); is(x, true, "resized back"); is(y, false, "other"); break; }
        case 6: { x.fill(T(5)); CHECK(equal(x, n, [](size_t) { return 5.0; }), "contents:" + tag, what); is(y, false, "other"); break; }
        case 7: { Storage<T, false, true, 100> h; for (size_t e = 0; e < 100; ++e) h.begin()[e] = T(value(e)); St z(h); CHECK(equal(z, 100, value), "contents:" + tag, what); is(x, true, "other"); break; }
        case 8: if constexpr (std::is_same<T, Tok>::value) throw mc::Prune(); else { Flexible<float> f(n); for (size_t e = 0; e < n; ++e) f.begin()[e] = float(value(e)); St z(f); is(z, true, "converted"); break; }
        default: {
            { St z(memory.data() + 1, n); is(z, true, "view"); CHECK(z.getDataPointer() == memory.data() + 1, "view:" + tag, what);
              if (op == 10) { y = static_cast<St const&>(z); is(y, true, "left"); St q(static_cast<St const&>(z)); is(q, true, "copy"); CHECK(q.getDataPointer() != z.getDataPointer(), "copy is a view:" + tag, what); }
              if (op == 11 && m != n) { bool thrown = false; try { z.resize(m); } catch (std::runtime_error const&) { thrown = true; } CHECK(thrown, "resized:" + tag, what); is(z, true, "view"); }
              if (op == 12) { for (size_t e = 0; e < n; ++e) z.begin()[e] = T(-value(e)); for (size_t e = 0; e < n; ++e) CHECK(double(memory[e + 1]) == double(T(-value(e))), "written:" + tag, what); z.fill(T(3)); for (size_t e = 0; e < n; ++e) CHECK(double(memory[e + 1]) == 3, "filled:" + tag, what); } }
            CHECK(double(memory[0]) == 4711 && double(memory[n + 1]) == 4711, "beyond the external memory:" + tag, what);
        } }
    }
    CHECK(bb::live() == base, "allocations:" + tag, std::to_string(bb::live() - base) + " blocks too many for " + what);
    CHECK(Tok::alive == alive, "elements:" + tag, std::to_string(Tok::alive - alive) + " elements too many for " + what);
    ctx.state(mc::Hash()(tag)(n)(m)); ctx.outcome(tag);
}
mc::Register w1("wide double", wide<double>, true), w2("wide float", wide<float>, true), w3("wide class", wide<Tok>, true);

void wide_sparse(mc::Ctx& ctx)
{
    static const std::vector<size_t> longest{ 1, 33, 40000, 70000 }; auto const& sizes = ctx.flag("long") ? longest : big_sides(ctx.thorough());
    size_t n = ctx.pick(sizes, "size"), o = ctx.pick(sizes, "offsets");
    ctx.shard();
    int op = ctx.choose(7, "operation");
    static const char* names[] = { "copied", "moved", "assigned", "assigned by move", "swapped", "truncated", "converted" };
    std::string tag = std::string("wide sparse ") + names[op], what = std::to_string(n) + "/" + std::to_string(o); ctx.note(tag);
    long base = bb::live();
    {
        size_t kept = n;
        auto fill = [](auto& s) { for (size_t e = 0; e < s.nnz(); ++e) { s.begin()[e] = 1 + e; s.beginKey()[e] = 1000 + e; } for (size_t e = 0; e < s.sizeOffset(); ++e) s.beginOffset()[e] = 2000 + e; };
        auto is = [&](SS const& s, size_t nn, size_t oo) {
            CHECK(s.nnz() == nn && s.sizeOffset() == oo && size_t(s.end() - s.begin()) == nn && size_t(s.endKey() - s.beginKey()) == nn && size_t(s.endOffset() - s.beginOffset()) == oo, "size:" + tag, what);
            for (size_t e = 0; e < nn; ++e) CHECK(s.begin()[e] == double(1 + e) && s.beginKey()[e] == 1000 + e, "contents:" + tag, std::to_string(e) + " of " + what);
            for (size_t e = 0; e < oo; ++e) CHECK(s.beginOffset()[e] == 2000 + e, "offsets:" + tag, std::to_string(e) + " of " + what); };
        SS x(n, o), y(o + 1, n + 2); fill(x); fill(y);
        switch (op) {
        case 0: { SS z(static_cast<SS const&>(x)); is(z, n, o); is(x, n, o); break; }
        case 1: { SS z(std::move(x)); is(z, n, o); break; }
        case 2: y = static_cast<SS const&>(x); is(y, n, o); is(x, n, o); break;
        case 3: y = std::move(x); is(y, n, o); break;
        case 4: { using std::swap; swap(x, y); is(y, n, o); is(x, o + 1, n + 2); break; }
        case 5: kept = n / 2; x.truncate(kept); is(x, kept, o); x.truncate(0); is(x, 0, o); x.resize(o, n); fill(x); is(x, o, n); break;
        case 6: { SparseStorage<float, size_t, false, 0> f(n, o); fill(f); SS z(f); is(z, n, o); break; }
        }
    }
    CHECK(bb::live() == base, "allocations:" + tag, what);
    ctx.state(mc::Hash()(tag)(n)(o)); ctx.outcome(tag);
}
mc::Register w4("wide sparse storage", wide_sparse, true);

} // namespace
