/* fifo_cache, circular_buffer, Matrix, dynamic_bitset, iterators and bit helpers against reference models. */
#include "vh.hpp"
#include "tracked.hpp"
#include "utility/circular_buffer.hpp"
#include "utility/cache.hpp"
#include "utility/matrix.hpp"
#include "utility/dynamic_bitset.hpp"
#include "utility/bit.hpp"
#include "utility/iterators.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <numeric>
#include <vector>
#include <optional>
using namespace gapp::detail;
using vh::Case; using vh::Rng;

/* Allocator that records every block and can be made to fail. */
struct AllocLedger { std::unordered_map<const void*, size_t> blocks; int64_t countdown = -1; std::string problem; static AllocLedger& get() { static AllocLedger a; return a; } };
template<typename T> struct LedgerAlloc
{
    using value_type = T; using is_always_equal = std::true_type;
    LedgerAlloc() = default; template<typename U> LedgerAlloc(const LedgerAlloc<U>&) {}
    T* allocate(size_t n)
    {
        auto& L = AllocLedger::get(); if (L.countdown > 0 && --L.countdown == 0) { L.countdown = -1; throw InjectedError{}; }
        T* p = std::allocator<T>{}.allocate(n); L.blocks[p] = n; return p;
    }
    void deallocate(T* p, size_t n)
    {
        auto& L = AllocLedger::get(); auto it = L.blocks.find(p);
        if (it == L.blocks.end()) { if (L.problem.empty()) L.problem = "deallocated a block that is not allocated"; return; }
        if (it->second != n && L.problem.empty()) L.problem = "deallocated with a different size";
        L.blocks.erase(it); std::allocator<T>{}.deallocate(p, n);
    }
    friend bool operator==(const LedgerAlloc&, const LedgerAlloc&) { return true; }
};

template<typename T> T mk(int64_t x) { if constexpr (std::is_same_v<T, std::string>) return x % 3 ? std::to_string(x) : std::string(33, char('a' + (x % 26 + 26) % 26)); else return T(x); }
template<typename C> std::string show(const C& c) { std::ostringstream o; o << "["; size_t n = 0; for (auto&& x : c) { if (n++ > 20) { o << "..."; break; } o << x << " "; } o << "]"; return o.str(); }
template<typename T> constexpr bool tracked = std::is_same_v<T, Tracked> || std::is_same_v<T, TrackedTM>;

/* The laws of random access iterators over a sequence whose elements are known by position. */
template<typename It, typename At>
void checkIterators(const std::string& what, It b, It e, size_t n, At at, Rng& r)
{
    using D = typename std::iterator_traits<It>::difference_type;
    VH_REQUIRE(size_t(e - b) == n && size_t(std::distance(b, e)) == n, "distance", what);
    VH_REQUIRE(b + D(n) == e && e - D(n) == b && (b == e) == (n == 0), "begin-end", what);
    size_t k = 0; for (It it = b; it != e; ++it, ++k) VH_REQUIRE(*it == at(k), "forward-walk", what, " at ", k);
    VH_REQUIRE(k == n, "walk-length", what);
    for (It it = e; it != b;) { --it; --k; VH_REQUIRE(*it == at(k), "backward-walk", what, " at ", k); }
    for (int t = 0; t < 12; t++)
    {
        const D i = D(r.below(n + 1)), j = D(r.below(n + 1)); It x = b + i, y = D(0) + b; y += j;
        VH_REQUIRE(x - y == i - j, "signed-difference", what, ": ", i, " - ", j, " = ", x - y);
        VH_REQUIRE((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "comparisons", what);
        VH_REQUIRE(x + (j - i) == y && y - (j - i) == x, "offset", what);
        It z = x; z -= i; VH_REQUIRE(z == b, "minus-assign", what);
        if (size_t(i) < n)
        {
            VH_REQUIRE(*x == at(i) && b[i] == at(i) && *(i + b) == at(i), "subscript", what, " at ", i); VH_REQUIRE(y[i - j] == at(i), "subscript-offset", what);
            It p = x; It old = p++; VH_REQUIRE(old == x && p == x + 1, "post-increment", what); VH_REQUIRE(&(++(old)) == &old && old == p, "pre-increment", what);
            It old2 = p--; VH_REQUIRE(old2 == x + 1 && p == x, "post-decrement", what); VH_REQUIRE(--old2 == x, "pre-decrement", what);
        }
        vh::stat("iterator_laws");
    }
    std::reverse_iterator<It> rb(e), re(b); k = n; for (auto it = rb; it != re; ++it) { --k; VH_REQUIRE(*it == at(k), "reverse-walk", what, " at ", k); }
    if (n) { const size_t q = r.below(n); VH_REQUIRE(*(rb + D(q)) == at(n - 1 - q), "reverse-offset", what); }
    VH_REQUIRE(It() == It(), "value-initialised", what);
}

// ------------------------------------------------------------------------------------------ circular buffer
template<typename T>
struct RingModel
{
    using CB = circular_buffer<T, LedgerAlloc<T>>;
    struct Pair { std::optional<CB> cb; std::deque<T> ref; size_t cap = 0; };
    std::vector<Pair> ps{ 3 }; Rng& r; Case& c; bool inject; std::vector<std::string> log; uint64_t wraps = 0, threw = 0;
    RingModel(Rng& r_, Case& c_, bool inj) : r(r_), c(c_), inject(inj) { for (auto& p : ps) { p.cap = r.below(9); p.cb.emplace(p.cap); } }
    std::string where() { std::string s; for (size_t i = log.size() > 14 ? log.size() - 14 : 0; i < log.size(); i++) s += log[i] + "; "; return s; }
    void check()
    {
        for (auto& p : ps)
        {
            CB& cb = *p.cb; const CB& k = cb;
            VH_REQUIRE(k.capacity() == p.cap, "capacity", k.capacity(), " expected ", p.cap, " after ", where());
            VH_REQUIRE(k.size() == p.ref.size() && k.empty() == p.ref.empty() && k.full() == (p.ref.size() == p.cap), "size", k.size(), " expected ", p.ref.size(), " after ", where());
            for (size_t i = 0; i < k.size(); i++) VH_REQUIRE(k[i] == p.ref[i] && cb[i] == p.ref[i] && k.at(i) == p.ref[i], "contents", "index ", i, " ", show(k), " expected ", show(p.ref), " after ", where());
            if (k.size()) VH_REQUIRE(k.front() == p.ref.front() && k.back() == p.ref.back() && cb.front() == p.ref.front() && cb.back() == p.ref.back(), "front-back", where());
            bool oor = false; try { (void)k.at(k.size() + r.below(3)); } catch (const std::out_of_range&) { oor = true; } VH_REQUIRE(oor, "at-not-checked", where());
            VH_REQUIRE(std::equal(k.begin(), k.end(), p.ref.begin(), p.ref.end()) && std::equal(k.rbegin(), k.rend(), p.ref.rbegin(), p.ref.rend()) && std::equal(k.cbegin(), k.cend(), p.ref.begin()) && std::equal(k.crbegin(), k.crend(), p.ref.rbegin()), "iteration", where());
        }
        VH_REQUIRE(AllocLedger::get().problem.empty(), "allocation:" + AllocLedger::get().problem, where());
    }
    void ledger()   // between steps, when only the buffers and the models hold elements
    {
        if constexpr (tracked<T>)
        {
            size_t expect = 0; for (auto& p : ps) expect += 2 * p.ref.size(); auto& L = Ledger::get();
            VH_REQUIRE(L.problem.empty(), "lifetime:" + L.problem, where()); VH_REQUIRE(L.live.size() == expect, "lifetime:live-count", L.live.size(), " expected ", expect, " after ", where());
        }
    }
    template<typename F, typename G> void apply(Pair& p, const std::string& name, bool strong, F f, G g)
    {
        log.push_back(name + " size=" + std::to_string(p.ref.size()) + "/" + std::to_string(p.cap)); c.sig(vh::hash_str(log.back()));
        bool t = false;
        if (inject) { if (tracked<T> && r.chance(0.3)) Ledger::get().countdown = r.range(1, 8); if (r.chance(0.15)) AllocLedger::get().countdown = 1; }
        try { f(*p.cb); } catch (const InjectedError&) { t = true; threw++; }
        Ledger::get().countdown = -1; AllocLedger::get().countdown = -1;
        if (!t) g(p.ref);
        else
        {
            log.back() += " THREW";
            if (!strong) { p.cap = p.cb->capacity(); std::deque<T> now; for (size_t i = 0; i < p.cb->size(); i++) now.push_back((*p.cb)[i]); p.ref = std::move(now); }
        }
        vh::stat("operations"); check();
    }
    void step()
    {
        Pair& p = r.pick(ps); Pair& q = r.pick(ps); const size_t n = p.ref.size();
        auto pb = [&](T v) { return [&, v](std::deque<T>& d) { if (d.size() == p.cap) { d.pop_front(); wraps++; } d.push_back(v); }; };
        auto pf = [&](T v) { return [&, v](std::deque<T>& d) { if (d.size() == p.cap) { d.pop_back(); wraps++; } d.push_front(v); }; };
        constexpr bool nm = std::is_nothrow_move_constructible_v<T>;
        switch (r.below(22))
        {
        case 0: case 1: case 2: if (p.cap) { T v = mk<T>(r.range(-99, 99)); auto g = [&](std::deque<T>& d) { pb(v)(d); }; apply(p, "push_back", nm, [&](CB& b) { b.push_back(v); }, g); } break;
        case 3: if (p.cap) { T v = mk<T>(r.range(-99, 99)); T w = v; apply(p, "push_back&&", false, [&](CB& b) { b.push_back(std::move(v)); }, [&](auto& d) { pb(w)(d); }); } break;
        case 4: case 5: case 6: if (p.cap) { T v = mk<T>(r.range(-99, 99)); apply(p, "push_front", nm, [&](CB& b) { b.push_front(v); }, [&](auto& d) { pf(v)(d); }); } break;
        case 7: if (p.cap) { T v = mk<T>(r.range(-99, 99)); T w = v; apply(p, "push_front&&", false, [&](CB& b) { b.push_front(std::move(v)); }, [&](auto& d) { pf(w)(d); }); } break;
        case 8: if (p.cap && n) { size_t i = r.below(n); T v = p.ref[i]; apply(p, "push_back(self)", nm, [&](CB& b) { b.push_back(b[i]); }, [&](auto& d) { pb(v)(d); }); } break;
        case 9: if (p.cap && n) { size_t i = r.below(n); T v = p.ref[i]; apply(p, "push_front(self)", nm, [&](CB& b) { b.push_front(b[i]); }, [&](auto& d) { pf(v)(d); }); } break;
        case 10: if (p.cap) { int x = int(r.range(3, 99)); if (r.chance(.5)) apply(p, "emplace_back", nm, [&](CB& b) { T& t = b.emplace_back(mk<T>(x)); VH_REQUIRE(&t == &b.back(), "emplace-reference", where()); }, [&](auto& d) { pb(mk<T>(x))(d); });
                            else apply(p, "emplace_front", nm, [&](CB& b) { T& t = b.emplace_front(mk<T>(x)); VH_REQUIRE(&t == &b.front(), "emplace-reference", where()); }, [&](auto& d) { pf(mk<T>(x))(d); }); } break;
        case 11: if (n) apply(p, "pop_front", true, [&](CB& b) { b.pop_front(); }, [&](auto& d) { d.pop_front(); }); break;
        case 12: if (n) apply(p, "pop_back", true, [&](CB& b) { b.pop_back(); }, [&](auto& d) { d.pop_back(); }); break;
        case 13: case 14: { size_t k = r.below(12); apply(p, "set_capacity " + std::to_string(k), nm, [&](CB& b) { b.set_capacity(k); }, [&](auto& d) { while (d.size() > k) d.pop_back(); p.cap = k; }); break; }
        case 15: if (r.chance(.4)) apply(p, "clear", true, [&](CB& b) { b.clear(); }, [&](auto& d) { d.clear(); }); else { size_t k = r.below(12); apply(p, "reset " + std::to_string(k), false, [&](CB& b) { b.reset(k); }, [&](auto& d) { d.clear(); p.cap = k; }); } break;
        case 16: { auto src = q.ref; size_t cap = q.cap; apply(p, "copy-assign", true, [&](CB& b) { b = *q.cb; }, [&](auto& d) { d = src; p.cap = cap; }); break; }
        case 17: if (&p != &q) { auto src = std::move(q.ref); q.ref.clear(); size_t cap = q.cap; log.push_back("move-assign"); *p.cb = std::move(*q.cb); p.ref = std::move(src); p.cap = cap;
                     // the moved-from buffer is valid but unspecified: rebuilt
                     q.cb.emplace(q.cap); check(); } break;
        case 18: if (&p != &q) { log.push_back("swap"); if (r.chance(.5)) p.cb->swap(*q.cb); else { using std::swap; swap(*p.cb, *q.cb); } std::swap(p.ref, q.ref); std::swap(p.cap, q.cap); check(); } break;
        case 19: { // construct from a range
            const size_t len = r.below(10), cap = r.below(10); const int form = int(r.below(3)); std::vector<T> v; for (size_t i = 0; i < len; i++) v.push_back(mk<T>(r.range(-99, 99)));
            log.push_back("construct(" + std::to_string(cap) + ", range of " + std::to_string(len) + ")");
            if (inject) { if (tracked<T> && r.chance(.3)) Ledger::get().countdown = r.range(1, 8); }
            std::optional<CB> nb;
            try { if (form == 0) nb.emplace(cap, v.begin(), v.end()); else if (form == 1) { std::list<T> l(v.begin(), v.end()); nb.emplace(cap, l.begin(), l.end()); } else { std::forward_list<T> l(v.begin(), v.end()); nb.emplace(cap, l.begin(), l.end()); } }
            catch (const InjectedError&) { threw++; nb.reset(); }
            Ledger::get().countdown = -1;
            if (nb) { p.cb.emplace(std::move(*nb)); nb.reset(); p.ref.assign(v.end() - std::min(len, cap), v.end()); p.cap = cap; } v.clear(); v.shrink_to_fit(); check(); break; }
        case 20: { const CB &a = *p.cb, &b = *q.cb;
            VH_REQUIRE((a == b) == (p.ref == q.ref), "equality", where());
            if constexpr (std::three_way_comparable<T>) VH_REQUIRE(((a <=> b) < 0) == (p.ref < q.ref) && ((a <=> b) > 0) == (q.ref < p.ref), "ordering", where());
            break; }
        default: if (n) { // iterators stay valid by position and write through
            auto it = p.cb->begin() + (typename CB::difference_type)r.below(n); const size_t i = size_t(it - p.cb->begin()); T v = mk<T>(r.range(-99, 99)); *it = v; p.ref[i] = v; VH_REQUIRE(typename CB::const_iterator(it) == std::as_const(*p.cb).begin() + (typename CB::difference_type)i, "const-conversion", where());
            auto at = [&](size_t k) -> const T& { return p.ref[k]; }; checkIterators("ring iterator", p.cb->begin(), p.cb->end(), n, at, r); checkIterators("ring const iterator", p.cb->cbegin(), p.cb->cend(), n, at, r); }
        }
    }
};
template<typename T> void ringCase(Rng& r, Case& cs, bool inject)
{
    Ledger::get().reset(); AllocLedger::get() = {};
    {
        RingModel<T> m(r, cs, inject); const int steps = 20 + int(r.below(60)); for (int i = 0; i < steps; i++) { m.step(); m.ledger(); }
        cs.nontrivial = m.wraps > 0; vh::stat("overwrites", m.wraps); vh::stat("injected_exceptions", m.threw); cs.sample_lazy("", [&] { return m.where(); });
    }
    VH_REQUIRE(Ledger::get().live.empty() && Ledger::get().problem.empty(), "lifetime:leak", Ledger::get().live.size(), Ledger::get().problem);
    VH_REQUIRE(AllocLedger::get().blocks.empty() && AllocLedger::get().problem.empty(), "allocation:leak", AllocLedger::get().blocks.size(), AllocLedger::get().problem);
}

// ------------------------------------------------------------------------------------------ fifo cache
struct Key { int v; friend bool operator==(const Key&, const Key&) = default; friend bool operator<(const Key& a, const Key& b) { return a.v < b.v; } friend std::ostream& operator<<(std::ostream& o, const Key& k) { return o << k.v; } };
static int g_hash_mod = 1000;
template<> struct std::hash<Key> { size_t operator()(const Key& k) const { return size_t(k.v % g_hash_mod); } };
using CacheModel = std::deque<std::pair<Key, std::string>>;
static void put(CacheModel& m, size_t cap, Key k, const std::string& v, bool overwrite = true)
{
    if (!cap) return;
    for (auto& e : m) if (e.first == k) { if (overwrite) e.second = v; return; }
    m.emplace_back(k, v); if (m.size() > cap) m.pop_front();
}
static void cacheCase(Rng& r, Case& cs)
{
    using C = fifo_cache<Key, std::string>;
    struct Pair { C c; CacheModel m; size_t cap = 0; };
    g_hash_mod = r.pick({ 1, 3, 1000 });
    std::vector<Pair> ps(3); for (auto& p : ps) if (r.chance(.8)) { p.cap = r.below(8); p.c = C(p.cap); }
    std::vector<std::string> log; const int keys = 1 + int(r.below(14)); uint64_t evictions = 0;
    auto where = [&] { std::string s; for (size_t i = log.size() > 14 ? log.size() - 14 : 0; i < log.size(); i++) s += log[i] + "; "; return s; };
    auto check = [&]
    {
        for (auto& p : ps)
        {
            VH_REQUIRE(p.c.capacity() == p.cap, "cache-capacity", where()); VH_REQUIRE(p.c.size() <= p.cap, "cache-over-capacity", where());
            VH_REQUIRE(p.c.size() == p.m.size() && p.c.empty() == p.m.empty() && p.c.full() == (p.m.size() == p.cap), "cache-size", p.c.size(), " expected ", p.m.size(), " after ", where());
            for (int k = 0; k < keys + 2; k++)
            {
                const std::string* want = nullptr; for (auto& e : p.m) if (e.first.v == k) want = &e.second;
                const auto* got = std::as_const(p.c).get(Key{ k }); auto* got2 = p.c.get(Key{ k });
                VH_REQUIRE(p.c.contains(Key{ k }) == bool(want) && bool(got) == bool(want) && got == got2, "cache-membership", "key ", k, want ? " missing" : " unexpected", " after ", where());
                VH_REQUIRE(!want || *got == *want, "cache-value", "key ", k, " has ", *got, " expected ", *want, " after ", where());
            }
        }
    };
    const int steps = 20 + int(r.below(60)); int serial = 0;
    for (int i = 0; i < steps; i++)
    {
        Pair &p = r.pick(ps), &q = r.pick(ps); const Key k{ int(r.below(keys)) }; const std::string v = "value-" + std::to_string(++serial);
        vh::stat("cache_operations"); const size_t before = p.m.size();
        switch (r.below(14))
        {
        case 0: case 1: case 2: case 3: log.push_back(vh::str("insert ", k)); if (p.cap && before == p.cap) evictions++; p.c.insert(k, v); put(p.m, p.cap, k, v); break;
        case 4: log.push_back(vh::str("insert&& ", k)); { Key kk = k; std::string vv = v; p.c.insert(std::move(kk), std::move(vv)); } put(p.m, p.cap, k, v); break;
        case 5: log.push_back(vh::str("try_insert ", k)); p.c.try_insert(k, v); put(p.m, p.cap, k, v, false); break;
        case 6: case 7: {
            std::vector<Key> ks; CacheModel seq, tail; bool same = false;
            for (int t = 0; t < 20 && !same; t++)
            {   // a range longer than the capacity is only compared where inserting all of it and inserting its tail agree
                ks.clear(); const size_t len = r.below(t < 10 ? 12 : p.cap + 1); for (size_t j = 0; j < len; j++) ks.push_back({ int(r.below(keys)) });
                seq = tail = p.m; for (size_t j = 0; j < len; j++) { put(seq, p.cap, ks[j], v + vh::str(ks[j])); if (j + p.cap >= len) put(tail, p.cap, ks[j], v + vh::str(ks[j])); }
                same = seq == tail;
            }
            if (!same) break;
            const int64_t throw_at = r.chance(.15) && ks.size() <= p.cap ? int64_t(r.below(12)) : -1; int64_t calls = 0;
            auto f = [&](const Key& x) { if (calls++ == throw_at) throw InjectedError{}; return v + vh::str(x); };
            log.push_back(vh::str("insert range ", show(ks), " cap ", p.cap, throw_at >= 0 ? " throwing" : ""));
            bool threw = false;
            try { if (r.chance(.5)) p.c.insert(ks.begin(), ks.end(), f); else { std::forward_list<Key> l(ks.begin(), ks.end()); p.c.insert(l.begin(), l.end(), f); } } catch (const InjectedError&) { threw = true; }
            if (threw) { for (int64_t j = 0; j < throw_at; j++) put(p.m, p.cap, ks[j], v + vh::str(ks[j])); vh::stat("injected_exceptions"); }
            else p.m = seq;
            break; }
        case 8: log.push_back("clear"); p.c.clear(); p.m.clear(); break;
        case 9: { const size_t n = r.below(10); log.push_back(vh::str("reset ", n)); p.c.reset(n); p.m.clear(); p.cap = n; break; }
        case 10: { log.push_back("copy"); auto m = q.m; auto cap = q.cap; if (r.chance(.5)) p.c = q.c; else { C t(q.c); p.c.swap(t); } p.m = m; p.cap = cap; break; }
        case 11: if (&p != &q) { log.push_back("move"); p.c = std::move(q.c); p.m = std::move(q.m); p.cap = q.cap; q.cap = r.below(8); q.c = C(q.cap); q.m.clear(); } break;
        case 12: if (&p != &q) { log.push_back("swap"); if (r.chance(.5)) p.c.swap(q.c); else { using std::swap; swap(p.c, q.c); } std::swap(p.m, q.m); std::swap(p.cap, q.cap); } break;
        default: VH_REQUIRE((p.c == q.c) == (p.m == q.m), "cache-equality", where()); { C t(p.c); VH_REQUIRE(t == p.c, "cache-copy-equal", where()); }
        }
        if (auto* x = p.c.get(k); x && r.chance(.2)) { *x = "written-" + std::to_string(i); for (auto& e : p.m) if (e.first == k) e.second = *x; }
        cs.sig(vh::hash_str(log.empty() ? "" : log.back())); check();
    }
    cs.nontrivial = evictions > 0; vh::stat("evictions", evictions); cs.sample_lazy("", where);
}

// ------------------------------------------------------------------------------------------ matrix
template<typename T>
void matrixCase(Rng& r, Case& cs)
{
    using M = Matrix<T>; struct Pair { M m; std::vector<std::vector<T>> ref; size_t cols = 0; };
    std::vector<Pair> ps(3); std::vector<std::string> log; bool multi = false;
    auto where = [&] { std::string s; for (size_t i = log.size() > 12 ? log.size() - 12 : 0; i < log.size(); i++) s += log[i] + "; "; return s; };
    auto val = [&] { return mk<T>(r.range(-99, 99)); };
    auto rowOf = [&](size_t n) { std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(val()); return v; };
    auto check = [&]
    {
        for (auto& p : ps)
        {
            const M& k = p.m; const size_t n = p.ref.size(), c = p.cols;
            VH_REQUIRE(k.nrows() == n && k.size() == n && k.empty() == (n == 0), "matrix-rows", k.nrows(), " expected ", n, " after ", where());
            if (n) VH_REQUIRE(k.ncols() == c, "matrix-columns", k.ncols(), " expected ", c, " after ", where());
            for (size_t i = 0; i < n; i++)
            {
                for (size_t j = 0; j < c; j++) VH_REQUIRE(k(i, j) == p.ref[i][j] && p.m(i, j) == p.ref[i][j] && k[i][j] == p.ref[i][j] && p.m[i][j] == p.ref[i][j] && k.data()[i * c + j] == p.ref[i][j], "matrix-element", i, ",", j, " after ", where());
                VH_REQUIRE(k[i].size() == c && k[i].ncols() == c && !k[i].empty() && k[i] == p.ref[i] && p.m[i] == p.ref[i] && k[i].front() == p.ref[i].front() && k[i].back() == p.ref[i].back(), "matrix-row", i, " after ", where());
                VH_REQUIRE(std::equal(k[i].begin(), k[i].end(), p.ref[i].begin(), p.ref[i].end()), "matrix-row-iteration", where());
                std::vector<T> v = k[i]; gapp::small_vector<T> sv = p.m[i]; std::span<const T> sp = k[i]; VH_REQUIRE(v == p.ref[i] && std::equal(sv.begin(), sv.end(), v.begin(), v.end()) && std::equal(sp.begin(), sp.end(), v.begin(), v.end()), "matrix-row-conversion", where());
                bool oor = false; try { (void)k[i].at(c + r.below(2)); } catch (const std::out_of_range&) { oor = true; } VH_REQUIRE(oor, "matrix-row-at", where());
            }
            size_t i = 0; for (auto row : k) { VH_REQUIRE(row == p.ref[i], "matrix-iteration", where()); i++; } VH_REQUIRE(i == n, "matrix-iteration-length", where());
            if (n) { VH_REQUIRE(k.front() == p.ref.front() && k.back() == p.ref.back(), "matrix-front-back", where()); const size_t j = r.below(c); auto col = k.column(j); for (size_t t = 0; t < n; t++) VH_REQUIRE(col.size() == n && col[t] == p.ref[t][j], "matrix-column-values", where()); }
        }
    };
    for (int s = 0, steps = 15 + int(r.below(40)); s < steps; s++)
    {
        Pair &p = r.pick(ps), &q = r.pick(ps); const size_t n = p.ref.size(), c = p.cols; vh::stat("matrix_operations"); if (n > 1 && c > 1) multi = true;
        switch (r.below(20))
        {
        case 0: { size_t a = 1 + r.below(5), b = 1 + r.below(5); T v = val(); log.push_back(vh::str("construct ", a, "x", b)); p.m = M(a, b, v); p.ref.assign(a, std::vector<T>(b, v)); p.cols = b; break; }
        case 1: { size_t a = 1 + r.below(5), b = 1 + r.below(5); log.push_back("construct default"); p.m = M(a, b); p.ref.assign(a, std::vector<T>(b, T())); p.cols = b; break; }
        case 2: { auto x = rowOf(2), y = rowOf(2), z = rowOf(2); log.push_back("construct list"); p.m = M{ { x[0], x[1] }, { y[0], y[1] }, { z[0], z[1] } }; p.ref = { x, y, z }; p.cols = 2; break; }
        case 3: case 4: case 5: case 6: { const size_t b = n ? c : 1 + r.below(5); auto x = rowOf(b); log.push_back(vh::str("append_row ", b)); p.m.append_row(x); p.ref.push_back(x); p.cols = b; break; }
        case 7: if (n) { log.push_back("pop_back"); p.m.pop_back(); p.ref.pop_back(); } break;
        case 8: if (n) { const size_t a = r.below(8); T v = val(); log.push_back(vh::str("resize rows ", a)); p.m.resize(a, c, v); p.ref.resize(a, std::vector<T>(c, v)); } else { const size_t a = r.below(5), b = 1 + r.below(4); T v = val(); log.push_back(vh::str("resize ", a, "x", b)); p.m.resize(a, b, v); p.ref.assign(a, std::vector<T>(b, v)); p.cols = b; } break;
        case 9: log.push_back("clear"); p.m.clear(); p.ref.clear(); break;
        case 10: { log.push_back("copy"); auto ref = q.ref; auto cols = q.cols; if (r.chance(.5)) p.m = q.m; else { M t(q.m); p.m = std::move(t); } p.ref = ref; p.cols = cols; break; }
        case 11: if (&p != &q) { log.push_back("swap"); if (r.chance(.5)) p.m.swap(q.m); else { using std::swap; swap(p.m, q.m); } std::swap(p.ref, q.ref); std::swap(p.cols, q.cols); } break;
        case 12: if (n) { size_t i = r.below(n), j = r.below(n); log.push_back("row = row"); if (r.chance(.5)) p.m[i] = p.m[j]; else p.m[i] = std::as_const(p.m)[j]; p.ref[i] = std::vector<T>(p.ref[j]); } break;
        case 13: if (n) { size_t i = r.below(n); auto x = rowOf(c); log.push_back("row = vector"); p.m[i] = x; p.ref[i] = x; } break;
        case 14: if (n) { size_t i = r.below(n), j = r.below(n); log.push_back("swap rows"); using std::swap; if (r.chance(.5)) swap(p.m[i], p.m[j]); else p.m[i].swap(p.m[j]); std::swap(p.ref[i], p.ref[j]); } break;
        case 15: if (n) { size_t i = r.below(n); auto x = rowOf(c), y = x; log.push_back("swap row with vector"); using std::swap; if (r.chance(.5)) swap(p.m[i], x); else swap(x, p.m[i]); VH_REQUIRE(x == p.ref[i], "matrix-swap-out", where()); p.ref[i] = y; } break;
        case 16: if (n) { size_t i = r.below(n), j = r.below(c); T v = val(); log.push_back("write element"); if (r.chance(.5)) p.m(i, j) = v; else p.m[i][j] = v; p.ref[i][j] = v; } break;
        case 17: if (n) { size_t a = r.below(n), b = a + r.below(n - a + 1); log.push_back("construct from rows"); M t(std::as_const(p.m).begin() + a, std::as_const(p.m).begin() + b); p.ref = std::vector<std::vector<T>>(p.ref.begin() + a, p.ref.begin() + b); p.m = std::move(t); } break;
        case 18: { const bool eq = p.ref == q.ref && (p.ref.empty() || p.cols == q.cols); VH_REQUIRE((p.m == q.m) == eq, "matrix-equality", where()); if (n) { size_t i = r.below(n), j = r.below(n); VH_REQUIRE((p.m[i] == p.m[j]) == (p.ref[i] == p.ref[j]) && (std::as_const(p.m)[i] == std::as_const(p.m)[j]) == (p.ref[i] == p.ref[j]), "row-equality", where()); } break; }
        default: if (n) { auto at = [&](size_t i) -> const std::vector<T>& { return p.ref[i]; }; checkIterators("matrix iterator", p.m.begin(), p.m.end(), n, at, r); checkIterators("matrix const iterator", p.m.cbegin(), p.m.cend(), n, at, r);
                     auto it = p.m.begin() + (std::ptrdiff_t)r.below(n); p.m.reserve(n + 20, c); VH_REQUIRE(*it == p.ref[size_t(it - p.m.begin())] && it->size() == c, "matrix-stable-iterator", where()); size_t i = size_t(it - p.m.begin()); auto x = rowOf(c); *it = x; p.ref[i] = x; }
        }
        cs.sig(vh::hash_str(log.empty() ? "" : log.back()) + n * 31 + c); check();
    }
    cs.nontrivial = multi; cs.sample_lazy("", where);
}

// ------------------------------------------------------------------------------------------ bitset
static void bitsetCase(Rng& r, Case& cs)
{
    struct Pair { dynamic_bitset b; std::vector<bool> ref; }; std::vector<Pair> ps(3); std::vector<std::string> log; bool partial = false;
    auto where = [&] { std::string s; for (size_t i = log.size() > 12 ? log.size() - 12 : 0; i < log.size(); i++) s += log[i] + "; "; return s; };
    auto size = [&] { return r.chance(.3) ? r.pick({ 0, 1, 63, 64, 65, 127, 128, 129, 256, 257, 320 }) : int(r.below(330)); };
    auto check = [&]
    {
        for (auto& p : ps)
        {
            const auto& b = p.b; const auto& v = p.ref; const size_t n = v.size(), ones = size_t(std::count(v.begin(), v.end(), true));
            VH_REQUIRE(b.size() == n && b.empty() == (n == 0), "bitset-size", b.size(), " expected ", n, " after ", where());
            for (size_t i = 0; i < n; i++) VH_REQUIRE(b[i] == v[i] && bool(p.b[i]) == v[i], "bitset-bit", i, " of ", n, " after ", where());
            VH_REQUIRE(b.popcount() == ones, "bitset-popcount", b.popcount(), " expected ", ones, " after ", where());
            VH_REQUIRE(b.any_set() == (ones > 0) && b.none_set() == (ones == 0) && b.all_set() == (ones == n), "bitset-any-all-none", where());
            for (bool x : { false, true }) VH_REQUIRE(b.find_first(x) == size_t(std::find(v.begin(), v.end(), x) - v.begin()), "bitset-find-first", x, " found ", b.find_first(x), " of ", n, " after ", where());
        }
    };
    for (int s = 0, steps = 10 + int(r.below(40)); s < steps; s++)
    {
        Pair &p = r.pick(ps), &q = r.pick(ps); const size_t n = p.ref.size(); vh::stat("bitset_operations"); if (n > 64 && n % 64) partial = true;
        switch (r.below(14))
        {
        case 0: { size_t k = size(); log.push_back(vh::str("construct ", k)); p.b = dynamic_bitset(k); p.ref.assign(k, false); break; }
        case 1: { size_t k = size(); bool v = r.chance(.5); log.push_back(vh::str("construct ", k, v)); p.b = dynamic_bitset(k, v); p.ref.assign(k, v); break; }
        case 2: case 3: case 4: { size_t k = size(); bool v = r.chance(.5); log.push_back(vh::str("resize ", n, " to ", k, " with ", v)); if (!v && r.chance(.3)) p.b.resize(k); else p.b.resize(k, v); p.ref.resize(k, v); break; }
        case 5: { bool v = r.chance(.5); log.push_back(vh::str("fill ", v)); p.b.fill(v); p.ref.assign(n, v); break; }
        case 6: log.push_back("clear"); p.b.clear(); p.ref.clear(); break;
        case 7: case 8: if (n) { for (int t = 0; t < 10; t++) { size_t i = r.chance(.3) ? n - 1 : r.below(n), j = r.below(n); switch (r.below(5)) { case 0: p.b[i] = true; p.ref[i] = true; break; case 1: p.b[i] = false; p.ref[i] = false; break; case 2: p.b[i].flip(); p.ref[i] = !p.ref[i]; break; case 3: p.b[i] = p.b[j]; p.ref[i] = bool(p.ref[j]); break; default: if (r.chance(.5)) { p.b[i].set(); p.ref[i] = true; } else { p.b[i].clear(); p.ref[i] = false; } } } log.push_back("write bits"); } break;
        case 9: { log.push_back("complement"); p.b = ~q.b; auto v = q.ref; v.flip(); p.ref = v; break; }
        case 10: { log.push_back("copy"); auto v = q.ref; p.b = q.b; p.ref = v; break; }
        case 11: if (&p != &q) { log.push_back("move"); p.b = std::move(q.b); p.ref = q.ref; q.b = dynamic_bitset(5); q.ref.assign(5, false); } break;
        default: VH_REQUIRE((p.b == q.b) == (p.ref == q.ref), "bitset-equality", where()); if (n) { auto t = p.b; VH_REQUIRE(t == p.b, "bitset-copy-equal", where()); size_t i = r.below(n); t[i].flip(); VH_REQUIRE(!(t == p.b), "bitset-difference-unnoticed", "bit ", i, " of ", n); t[i].flip(); dynamic_bitset u(n); for (size_t k = 0; k < n; k++) u[k] = p.ref[k]; VH_REQUIRE(u == p.b, "bitset-rebuilt-equal", where()); }
        }
        cs.sig(vh::hash_str(log.empty() ? "" : log.back())); check();
    }
    cs.nontrivial = partial; cs.sample_lazy("", where);
}

// ------------------------------------------------------------------------------------------ iterators and bits
template<typename T> void iotaLaws(Rng& r)
{
    const int64_t lo = std::is_signed_v<T> ? -100 : 0; const T a = T(r.range(lo, 20)); const size_t n = r.below(80);
    checkIterators("iota iterator", iota_iterator<T>(a), iota_iterator<T>(T(a + n)), n, [&](size_t i) { return T(a + T(i)); }, r);
}
template<typename T> void bitLaws(Rng& r)
{
    const size_t W = sizeof(T) * 8; const T x = T(r.next()); const size_t k = r.below(W), n = r.below(W + 1);
    VH_REQUIRE(is_nth_bit_set<T>(x, k) == bool((x >> k) & 1), "is-nth-bit-set", k); VH_REQUIRE(msb(x) == bool((x >> (W - 1)) & 1) && lsb(x) == bool(x & 1), "msb-lsb", uint64_t(x));
    T right = 0, left = 0; for (size_t i = 0; i < n; i++) { right |= T(T(1) << i); left |= T(T(1) << (W - 1 - i)); }
    VH_REQUIRE(mask_right_n<T>(n) == right && mask_left_n<T>(n) == left, "masks", n, " of ", W); VH_REQUIRE(block_of<T>(true) == T(~T(0)) && block_of<T>(false) == T(0) && ones<T> == T(~T(0)) && zeros<T> == T(0) && lsb_mask<T> == T(1) && msb_mask<T> == T(T(1) << (W - 1)), "constants", W);
    vh::stat("bit_laws");
}
static void iterCase(Rng& r, Case& cs)
{
    iotaLaws<size_t>(r); iotaLaws<int>(r); iotaLaws<unsigned>(r); iotaLaws<int64_t>(r);
    std::vector<int> v(r.below(30)); for (auto& x : v) x = int(r.below(100)); auto at = [&](size_t i) { return v[i]; };
    checkIterators("stable iterator", stable_begin(v), stable_end(v), v.size(), at, r); checkIterators("stable const iterator", stable_cbegin(v), stable_cend(v), v.size(), at, r); checkIterators("stable const iterator", stable_begin(std::as_const(v)), stable_end(std::as_const(v)), v.size(), at, r);
    gapp::small_vector<int> sv(v.begin(), v.end()); checkIterators("small_vector iterator", sv.begin(), sv.end(), v.size(), at, r);
    auto it = stable_begin(v); const size_t n = v.size(); for (int i = 0; i < 100; i++) v.push_back(i); VH_REQUIRE(*(it + std::ptrdiff_t(n)) == 0 && stable_end(v) - it == std::ptrdiff_t(n + 100), "stable-after-reallocation", n);
    // algorithms that rely on signed distances
    std::vector<int> w = v; std::sort(w.begin(), w.end()); std::sort(stable_begin(v), stable_end(v)); VH_REQUIRE(v == w, "sort-through-stable-iterators", n);
    const int key = int(r.below(100)); VH_REQUIRE(std::lower_bound(stable_cbegin(v), stable_cend(v), key) - stable_cbegin(v) == std::lower_bound(w.begin(), w.end(), key) - w.begin(), "lower-bound-through-stable-iterators", key);
    bitLaws<uint8_t>(r); bitLaws<uint16_t>(r); bitLaws<uint32_t>(r); bitLaws<uint64_t>(r);
    cs.nontrivial = n > 1; cs.sig(uint64_t(n)); cs.sig(r.next());
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string& prop)
    {
        if (prop == "P27")
        {
            vh::cases("ring-int", 4000, 60000, [](Rng& r, Case& c) { ringCase<int>(r, c, false); });
            vh::cases("ring-string", 2000, 40000, [](Rng& r, Case& c) { ringCase<std::string>(r, c, false); });
            vh::cases("ring-lifetimes", 3000, 60000, [](Rng& r, Case& c) { ringCase<Tracked>(r, c, false); });
            vh::cases("ring-exceptions", 3000, 60000, [](Rng& r, Case& c) { ringCase<Tracked>(r, c, true); });
            vh::cases("ring-throwing-moves", 2000, 40000, [](Rng& r, Case& c) { ringCase<TrackedTM>(r, c, true); });
            vh::cases("ring-alloc-failures", 2000, 40000, [](Rng& r, Case& c) { ringCase<int>(r, c, true); });
            vh::cases("cache", 6000, 100000, [](Rng& r, Case& c) { cacheCase(r, c); });
        }
        else
        {
            vh::cases("matrix-double", 2000, 40000, [](Rng& r, Case& c) { matrixCase<double>(r, c); });
            vh::cases("matrix-string", 1000, 20000, [](Rng& r, Case& c) { matrixCase<std::string>(r, c); });
            vh::cases("bitset", 4000, 60000, [](Rng& r, Case& c) { bitsetCase(r, c); });
            vh::cases("iterators", 4000, 60000, [](Rng& r, Case& c) { iterCase(r, c); });
        }
    });
}
