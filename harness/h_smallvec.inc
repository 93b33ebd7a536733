/* small_vector against std::vector: contents, lifetimes, exception safety. */
#include "vh.hpp"
#include "tracked.hpp"
#include "utility/small_vector.hpp"
#include <vector>
#include <list>
#include <deque>
#include <forward_list>
#include <string>
#include <iterator>
#include <sstream>

using gapp::small_vector;

template<typename T> struct Maker { static T make(int64_t x) { return T(x); } };
template<> struct Maker<std::string> { static std::string make(int64_t x) { return x % 3 ? std::to_string(x) : std::string(40, char('a' + (x % 26 + 26) % 26)) + std::to_string(x); } };
struct alignas(32) Over { double a[4]; Over() : a{} {} Over(int64_t x) : a{ double(x), double(x + 1), double(x + 2), double(x + 3) } {} bool operator==(const Over& o) const { return std::equal(a, a + 4, o.a); } auto operator<=>(const Over& o) const { return a[0] <=> o.a[0]; } };
template<typename T> constexpr bool is_tracked = std::is_same_v<T, Tracked> || std::is_same_v<T, TrackedTM>;

template<typename T> std::string show(const T& v) { std::ostringstream o; o << "["; size_t n = 0; for (const auto& x : v) { if (n++ > 20) { o << "..."; break; } if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Over>) o << x.a[0] << " "; else o << x << " "; } o << "]"; return o.str(); }

template<typename T, size_t N>
struct Model
{
    using SV = small_vector<T, N>;
    struct Pair { SV sv; std::vector<T> ref; };
    std::vector<std::unique_ptr<Pair>> ps;
    std::vector<std::string> log;
    vh::Rng& r; vh::Case& c;
    bool inject;
    uint64_t reallocs = 0, inline_ops = 0, threw = 0, heap_ops = 0;

    Model(vh::Rng& r_, vh::Case& c_, bool inj) : r(r_), c(c_), inject(inj)
    {
        for (int i = 0; i < 3; i++) ps.push_back(std::make_unique<Pair>());
    }
    T val() { return Maker<T>::make(r.range(-1000, 1000)); }
    std::vector<T> vals(size_t n) { std::vector<T> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(val()); return v; }
    std::string where() { std::string s; for (size_t i = log.size() > 12 ? log.size() - 12 : 0; i < log.size(); i++) s += log[i] + "; "; return s; }

    void invariants(Pair& p, bool contents)
    {
        SV& sv = p.sv; const SV& csv = sv;
        VH_REQUIRE(sv.size() <= sv.capacity(), "size-over-capacity", where());
        VH_REQUIRE(sv.capacity() >= SV::inline_capacity() , "capacity-below-inline", "capacity ", sv.capacity(), " after ", where());
        VH_REQUIRE(sv.empty() == (sv.size() == 0) && size_t(sv.ssize()) == sv.size(), "size-accessors", where());
        VH_REQUIRE(size_t(sv.end() - sv.begin()) == sv.size() && sv.data() == sv.begin(), "iterator-range", where());
        VH_REQUIRE(reinterpret_cast<uintptr_t>(sv.data()) % alignof(T) == 0, "misaligned-storage", where());
        const bool inside = (const char*)sv.data() >= (const char*)&sv && (const char*)sv.data() < (const char*)(&sv + 1);
        VH_REQUIRE(inside == sv.is_small(), "is_small-vs-storage", where());
        if (contents)
        {
            VH_REQUIRE(sv.size() == p.ref.size(), "wrong-size", "size ", sv.size(), " expected ", p.ref.size(), " after ", where());
            for (size_t i = 0; i < sv.size(); i++)
                VH_REQUIRE(csv[i] == p.ref[i] && csv.at(i) == p.ref[i], "wrong-contents", "index ", i, " got ", show(sv), " expected ", show(p.ref), " after ", where());
            VH_REQUIRE(std::equal(csv.rbegin(), csv.rend(), p.ref.rbegin(), p.ref.rend()), "reverse-iteration", where());
            if (!sv.empty()) VH_REQUIRE(csv.front() == p.ref.front() && csv.back() == p.ref.back(), "front-back", where());
            bool threw_oor = false; try { (void)sv.at(sv.size() + r.below(3)); } catch (const std::out_of_range&) { threw_oor = true; }
            VH_REQUIRE(threw_oor, "at-out-of-range-not-thrown", where());
        }
    }
    void ledger()
    {
        if constexpr (is_tracked<T>)
        {
            size_t expect = 0; for (auto& p : ps) expect += p->sv.size() + p->ref.size();
            Ledger& L = Ledger::get();
            VH_REQUIRE(L.problem.empty(), "lifetime:" + L.problem, where());
            VH_REQUIRE(L.live.size() == expect, "lifetime:live-count", "live objects ", L.live.size(), " expected ", expect, " after ", where());
            for (auto& p : ps) for (auto& x : p->sv) VH_REQUIRE(L.live.count(&x), "lifetime:element-not-alive", where());
        }
    }
    /* Runs op on sv; when it threw the injected error, the model resynchronises from the container (basic guarantee),
     * unless strong is set, then contents must be unchanged. */
    template<typename F, typename G>
    void apply(Pair& p, const std::string& name, bool strong, F&& onsv, G&& onref)
    {
        log.push_back(name + " size=" + std::to_string(p.sv.size()) + " cap=" + std::to_string(p.sv.capacity()) + (p.sv.is_small() ? " small" : " heap"));
        const auto* before = p.sv.data();
        c.sig(vh::hash_str(name) + p.sv.size() * 31 + p.sv.is_small());
        p.sv.is_small() ? inline_ops++ : heap_ops++;
        bool threw_now = false;
        if (inject && is_tracked<T> && r.chance(0.3)) Ledger::get().countdown = r.range(1, 12);
        try { onsv(p.sv); }
        catch (const InjectedError&) { threw_now = true; threw++; }
        Ledger::get().countdown = -1;
        if (!threw_now) onref(p.ref);
        else
        {
            log.back() += " THREW";
            if (!strong)
            {
                std::vector<T> now; now.reserve(p.sv.size());
                for (auto& x : p.sv) now.push_back(x);
                p.ref = std::move(now);
            }
        }
        if (p.sv.data() != before) reallocs++;
        for (auto& q : ps) invariants(*q, true);

    }

    void step()
    {
        Pair& p = *r.pick(ps); Pair& q = *r.pick(ps);
        const size_t n = p.ref.size();
        const size_t pos = r.below(n + 1);
        const size_t few = r.below(r.pick({ 2, 4, 9, 20 }));
        constexpr bool nm = std::is_nothrow_move_constructible_v<T>;
        switch (r.below(31))
        {
        case 0: case 1: { T v = val(); apply(p, "push_back", nm, [&](SV& s) { s.push_back(v); }, [&](auto& s) { s.push_back(v); }); break; }
        case 2: { T v = val(); T w = v; apply(p, "push_back&&", false, [&](SV& s) { s.push_back(std::move(v)); }, [&](auto& s) { s.push_back(w); }); break; }
        case 3: { if (!n) break; size_t i = r.below(n); apply(p, "push_back(self)", false, [&](SV& s) { s.push_back(s[i]); }, [&](auto& s) { s.push_back(T(s[i])); }); break; }
        case 4: { if (!n) break; apply(p, "pop_back", true, [&](SV& s) { s.pop_back(); }, [&](auto& s) { s.pop_back(); }); break; }
        case 5: { T v = val(); apply(p, "insert(pos,v)@" + std::to_string(pos), false, [&](SV& s) { auto it = s.insert(s.cbegin() + pos, v); VH_REQUIRE(size_t(it - s.begin()) == pos, "insert-iterator", where()); }, [&](auto& s) { s.insert(s.begin() + pos, v); }); break; }
        case 6: { T v = val(); T w = v; apply(p, "insert(pos,&&)@" + std::to_string(pos), false, [&](SV& s) { s.insert(s.cbegin() + pos, std::move(v)); }, [&](auto& s) { s.insert(s.begin() + pos, w); }); break; }
        case 7: { if (!n) break; size_t i = r.below(n); apply(p, "insert(pos,self)@" + std::to_string(pos) + "<-" + std::to_string(i), false, [&](SV& s) { s.insert(s.cbegin() + pos, s[i]); }, [&](auto& s) { T t = s[i]; s.insert(s.begin() + pos, t); }); break; }
        case 8: case 9: { T v = val(); apply(p, "insert(pos," + std::to_string(few) + ",v)@" + std::to_string(pos), false, [&](SV& s) { auto it = s.insert(s.cbegin() + pos, few, v); VH_REQUIRE(size_t(it - s.begin()) == pos, "insert-iterator", where()); }, [&](auto& s) { s.insert(s.begin() + pos, few, v); }); break; }
        case 10: { if (!n) break; size_t i = r.below(n); apply(p, "insert(pos," + std::to_string(few) + ",self)@" + std::to_string(pos) + "<-" + std::to_string(i), false, [&](SV& s) { s.insert(s.cbegin() + pos, few, s[i]); }, [&](auto& s) { T t = s[i]; s.insert(s.begin() + pos, few, t); }); break; }
        case 11: { auto v = vals(few); apply(p, "insert(pos,vec " + std::to_string(few) + ")@" + std::to_string(pos), false, [&](SV& s) { auto it = s.insert(s.cbegin() + pos, v.begin(), v.end()); VH_REQUIRE(size_t(it - s.begin()) == pos, "insert-iterator", where()); }, [&](auto& s) { s.insert(s.begin() + pos, v.begin(), v.end()); }); break; }
        case 12: { auto v0 = vals(few); std::deque<T> v(v0.begin(), v0.end()); v0.clear(); apply_ext(p, "insert(pos,deque " + std::to_string(few) + ")@" + std::to_string(pos), v, [&](SV& s) { s.insert(s.cbegin() + pos, v.begin(), v.end()); }, [&](auto& s) { s.insert(s.begin() + pos, v.begin(), v.end()); }); break; }
        case 13: { if (!n) break; apply(p, "erase(pos)", false, [&](SV& s) { auto it = s.erase(s.cbegin() + pos % n); VH_REQUIRE(size_t(it - s.begin()) == pos % n, "erase-iterator", where()); }, [&](auto& s) { s.erase(s.begin() + pos % n); }); break; }
        case 14: { size_t b = r.range(pos, n); apply(p, "erase(range)@" + std::to_string(pos) + ".." + std::to_string(b), false, [&](SV& s) { s.erase(s.cbegin() + pos, s.cbegin() + b); }, [&](auto& s) { s.erase(s.begin() + pos, s.begin() + b); }); break; }
        case 15: { size_t k = r.below(24); apply(p, "resize(" + std::to_string(k) + ")", false, [&](SV& s) { s.resize(k); }, [&](auto& s) { s.resize(k); }); break; }
        case 16: { size_t k = r.below(24); T v = val(); apply(p, "resize(" + std::to_string(k) + ",v)", false, [&](SV& s) { s.resize(k, v); }, [&](auto& s) { s.resize(k, v); }); break; }
        case 17: { if (!n) break; size_t k = r.below(24); size_t i = r.below(n); apply(p, "resize(" + std::to_string(k) + ",self)", false, [&](SV& s) { s.resize(k, s[i]); }, [&](auto& s) { T t = s[i]; s.resize(k, t); }); break; }
        case 18: { size_t k = r.below(40); apply(p, "reserve(" + std::to_string(k) + ")", nm, [&](SV& s) { s.reserve(k); VH_REQUIRE(s.capacity() >= k, "reserve-capacity", where()); }, [&](auto&) {}); break; }
        case 19: { apply(p, "shrink_to_fit", nm, [&](SV& s) { s.shrink_to_fit(); }, [&](auto&) {}); break; }
        case 20: { if (r.chance(0.5)) apply(p, "clear", true, [&](SV& s) { s.clear(); }, [&](auto& s) { s.clear(); }); else apply(p, "reset", true, [&](SV& s) { s.reset(); VH_REQUIRE(s.is_small(), "reset-not-small", where()); }, [&](auto& s) { s.clear(); }); break; }
        case 21: { T v = val(); apply(p, "assign(" + std::to_string(few) + ",v)", false, [&](SV& s) { s.assign(few, v); }, [&](auto& s) { s.assign(few, v); }); break; }
        case 22: { auto v = vals(few); apply(p, "assign(vec " + std::to_string(few) + ")", false, [&](SV& s) { s.assign(v.begin(), v.end()); }, [&](auto& s) { s.assign(v.begin(), v.end()); }); break; }
        case 23: { auto src = q.ref; bool same = &p == &q; apply(p, same ? "copy-assign(self)" : "copy-assign", false, [&](SV& s) { s = q.sv; }, [&](auto& s) { if (!same) s = src; }); break; }
        case 24: {
            if (&p == &q) break;
            auto src = q.ref;
            apply_raw2(p, q, "move-assign", [&] { p.sv = std::move(q.sv); }, [&] { p.ref = src; });
            break; }
        case 25: {
            if (r.chance(0.5)) apply_swap(p, q, "swap", [&] { p.sv.swap(q.sv); }); else apply_swap(p, q, "std-swap", [&] { using std::swap; swap(p.sv, q.sv); });
            break; }
        case 26: { // copy construct
            log.push_back("copy-construct"); if (inject && is_tracked<T> && r.chance(0.3)) Ledger::get().countdown = r.range(1, 8);
            try { SV s(p.sv); Ledger::get().countdown = -1; VH_REQUIRE(s == p.sv && std::equal(s.begin(), s.end(), p.ref.begin(), p.ref.end()), "copy-construct", where()); }
            catch (const InjectedError&) { threw++; }
            Ledger::get().countdown = -1; break; }
        case 27: { // move construct and back
            auto src = p.ref;
            if constexpr (nm) {
                log.push_back("move-construct"); SV s(std::move(p.sv));
                VH_REQUIRE(std::equal(s.begin(), s.end(), src.begin(), src.end()), "move-construct", where());
                std::vector<T> now; for (auto& x : p.sv) now.push_back(x); p.ref = now; invariants(p, true);
                p.sv = std::move(s); p.ref = src;
            }
            break; }
        case 28: { // constructors
            size_t k = r.below(16); log.push_back("construct " + std::to_string(k)); auto v = vals(k); T x = val();
            if (inject && is_tracked<T> && r.chance(0.5)) Ledger::get().countdown = r.range(1, 16);
            int which = int(r.below(5));
            try {
                if (which == 0) { SV s(k); Ledger::get().countdown = -1; VH_REQUIRE(s.size() == k && std::all_of(s.begin(), s.end(), [&](const T& e) { return e == T(); }), "construct(n)", where()); }
                else if (which == 1) { SV s(k, x); Ledger::get().countdown = -1; VH_REQUIRE(s.size() == k && std::all_of(s.begin(), s.end(), [&](const T& e) { return e == x; }), "construct(n,v)", where()); }
                else if (which == 2) { SV s(v.begin(), v.end()); Ledger::get().countdown = -1; VH_REQUIRE(std::equal(s.begin(), s.end(), v.begin(), v.end()), "construct(range)", where()); }
                else if (which == 3) { InIt<T> a{ &v, 0 }, b{ &v, v.size() }; SV s(a, b); Ledger::get().countdown = -1; VH_REQUIRE(std::equal(s.begin(), s.end(), v.begin(), v.end()), "construct(input-range)", where()); }
                else { std::list<T> l(v.begin(), v.end()); if constexpr (!is_tracked<T>) { SV s(l.begin(), l.end()); VH_REQUIRE(std::equal(s.begin(), s.end(), v.begin(), v.end()), "construct(list)", where()); } }
            } catch (const InjectedError&) { threw++; }
            Ledger::get().countdown = -1; x = T(); v.clear(); v.shrink_to_fit();
            ledger_after_locals(1);
            break; }
        case 29: { // input iterator assign/insert
            auto v = vals(few);
            if (r.chance(0.5)) apply(p, "assign(input)", false, [&](SV& s) { s.assign(InIt<T>{ &v, 0 }, InIt<T>{ &v, v.size() }); }, [&](auto& s) { s.assign(v.begin(), v.end()); });
            else apply(p, "insert(input)", false, [&](SV& s) { s.insert(s.cbegin() + pos, InIt<T>{ &v, 0 }, InIt<T>{ &v, v.size() }); }, [&](auto& s) { s.insert(s.begin() + pos, v.begin(), v.end()); });
            break; }
        case 30: { // comparisons
            VH_REQUIRE((p.sv == q.sv) == (p.ref == q.ref), "operator==", where());
            VH_REQUIRE((p.sv < q.sv) == (p.ref < q.ref) && (p.sv > q.sv) == (p.ref > q.ref), "operator<=>", show(p.ref), " ", show(q.ref));
            auto sv = p.sv.std_vec(); VH_REQUIRE(sv == p.ref, "std_vec", where());
            T v = val(); apply(p, "emplace@" + std::to_string(pos), false, [&](SV& s) { s.emplace(s.cbegin() + pos, v); }, [&](auto& s) { s.emplace(s.begin() + pos, v); });
            break; }
        }
    }
    template<typename U> struct InIt
    {
        using iterator_category = std::input_iterator_tag; using value_type = U; using difference_type = std::ptrdiff_t; using pointer = const U*; using reference = const U&;
        std::vector<U>* v; size_t i;
        const U& operator*() const { return (*v)[i]; } InIt& operator++() { i++; return *this; } InIt operator++(int) { auto t = *this; i++; return t; }
        bool operator==(const InIt& o) const { return i == o.i; }
    };
    size_t extra_live = 0;
    void ledger_after_locals(size_t) { if constexpr (is_tracked<T>) { VH_REQUIRE(Ledger::get().problem.empty(), "lifetime:" + Ledger::get().problem, where()); } }
    template<typename V, typename F, typename G> void apply_ext(Pair& p, const std::string& n, V& ext, F&& f, G&& g)
    {
        apply_locals = ext.size(); apply(p, n, false, f, g);
    }
    size_t apply_locals = 0;
    template<typename F, typename G> void apply_raw2(Pair& p, Pair& q, const std::string& name, F&& f, G&& g)
    {
        log.push_back(name + (p.sv.is_small() ? " small<-" : " heap<-") + (q.sv.is_small() ? "small" : "heap")); c.sig(vh::hash_str(log.back()));
        bool t = false; if (inject && is_tracked<T> && r.chance(0.3)) Ledger::get().countdown = r.range(1, 8);
        try { f(); } catch (const InjectedError&) { t = true; threw++; }
        Ledger::get().countdown = -1;
        if (!t) g(); else { std::vector<T> now; for (auto& x : p.sv) now.push_back(x); p.ref = now; }
        std::vector<T> now; for (auto& x : q.sv) now.push_back(x); q.ref = now;   // moved-from: valid but unspecified
        for (auto& z : ps) invariants(*z, true);
    }
    template<typename F> void apply_swap(Pair& p, Pair& q, const std::string& name, F&& f)
    {
        log.push_back(name + (p.sv.is_small() ? " small" : " heap") + (q.sv.is_small() ? "/small" : "/heap")); c.sig(vh::hash_str(log.back()));
        bool t = false; if (inject && is_tracked<T> && r.chance(0.2)) Ledger::get().countdown = r.range(1, 8);
        try { f(); } catch (const InjectedError&) { t = true; threw++; }
        Ledger::get().countdown = -1;
        if (!t) std::swap(p.ref, q.ref);
        else for (Pair* z : { &p, &q }) { std::vector<T> now; for (auto& x : z->sv) now.push_back(x); z->ref = now; }
        for (auto& z : ps) invariants(*z, true);
    }
};

template<typename T, size_t N>
void history(vh::Rng& r, vh::Case& c, bool inject)
{
    Ledger::get().reset();
    uint64_t re, th;
    {
        Model<T, N> m(r, c, inject);
        const int steps = int(r.range(10, 60));
        for (int i = 0; i < steps; i++)
        {
            m.step(); m.ledger();
        }
        re = m.reallocs; th = m.threw;
        c.nontrivial = m.reallocs > 0 && m.inline_ops > 0;
        c.sample_lazy("", [&] { std::string s; for (size_t i = 0; i < m.log.size() && i < 12; i++) s += m.log[i] + "; "; return s; });
        vh::stat("operations", m.log.size()); vh::stat("storage_changes", m.reallocs); vh::stat("inline_ops", m.inline_ops); vh::stat("heap_ops", m.heap_ops); vh::stat("exceptions_injected", m.threw);
    }
    if constexpr (is_tracked<T>)
    {
        VH_REQUIRE(Ledger::get().problem.empty(), "lifetime:" + Ledger::get().problem, "at the end of the history");
        VH_REQUIRE(Ledger::get().live.empty(), "lifetime:leak", Ledger::get().live.size(), " objects still alive after everything was destroyed");
    }
}

/* ranges whose value type differs from the element type */
template<typename To, typename From>
void conversions(vh::Rng& r, vh::Case& c)
{
    size_t n = r.below(20); std::vector<From> src(n); for (auto& x : src) x = From(r.range(-100, 100));
    std::vector<To> want(src.begin(), src.end());
    c.sig(n); c.nontrivial = n > 1; c.sample(vh::str("convert ", vh::vec(src)));
    small_vector<To> a(src.begin(), src.end());
    VH_REQUIRE(std::equal(a.begin(), a.end(), want.begin(), want.end()), "converting-construct", show(a), " expected ", show(want));
    small_vector<To> b; b.assign(src.begin(), src.end());
    VH_REQUIRE(std::equal(b.begin(), b.end(), want.begin(), want.end()), "converting-assign", show(b), " expected ", show(want));
    small_vector<To> d(r.below(12), To(7)); std::vector<To> e(d.begin(), d.end()); size_t pos = r.below(d.size() + 1);
    if (r.chance(0.5)) d.reserve(64);
    d.insert(d.cbegin() + pos, src.begin(), src.end()); e.insert(e.begin() + pos, src.begin(), src.end());
    VH_REQUIRE(std::equal(d.begin(), d.end(), e.begin(), e.end()), "converting-insert", show(d), " expected ", show(e));
    vh::stat("operations", 3);
}

