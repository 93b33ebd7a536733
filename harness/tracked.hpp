/* Element type that records its own lifetime: every construction/destruction is registered by address,
 * so leaks, double destruction and use of dead or raw storage are observed; copies/moves can be made to throw. */
#ifndef VH_TRACKED_HPP
#define VH_TRACKED_HPP
#include "vh.hpp"
#include <unordered_map>

struct InjectedError : std::runtime_error { InjectedError() : std::runtime_error("injected") {} };

struct Ledger
{
    std::unordered_map<const void*, uint64_t> live;
    int64_t countdown = -1;         // throws when it reaches 0
    uint64_t constructed = 0, destroyed = 0, thrown = 0;
    std::string problem;
    static Ledger& get() { static Ledger l; return l; }
    void tick() { if (countdown > 0 && --countdown == 0) { countdown = -1; thrown++; throw InjectedError{}; } }
    void born(const void* p) { constructed++; if (!live.emplace(p, constructed).second && problem.empty()) problem = "constructed over a live object"; }
    void dead(const void* p) { destroyed++; if (!live.erase(p) && problem.empty()) problem = "destroyed an object that is not alive"; }
    void used(const void* p) { if (!live.count(p) && problem.empty()) problem = "accessed an object that is not alive"; }
    void reset() { live.clear(); countdown = -1; problem.clear(); }
};

/* ThrowingMove: moves may throw as well. */
template<bool ThrowingMove>
struct TrackedT
{
    int64_t v;
    std::string payload;     // heap backed, so that ASan sees bitwise misuse
    static constexpr int64_t moved_from = -777777;

    TrackedT() : v(0), payload("default-default-default-default") { Ledger::get().tick(); Ledger::get().born(this); }
    TrackedT(int64_t x) : v(x), payload(std::to_string(x) + "-abcdefghijklmnopqrstuvwxyz") { Ledger::get().tick(); Ledger::get().born(this); }
    TrackedT(const TrackedT& o) : v((Ledger::get().used(&o), o.v)), payload(o.payload) { Ledger::get().tick(); Ledger::get().born(this); }
    TrackedT(TrackedT&& o) noexcept(!ThrowingMove) : v(0)
    {
        Ledger::get().used(&o);
        if constexpr (ThrowingMove) Ledger::get().tick();
        v = o.v; payload = std::move(o.payload); if (&o != this) { o.v = moved_from; o.payload.clear(); }
        Ledger::get().born(this);
    }
    TrackedT& operator=(const TrackedT& o) { Ledger::get().used(this); Ledger::get().used(&o); Ledger::get().tick(); v = o.v; payload = o.payload; return *this; }
    TrackedT& operator=(TrackedT&& o) noexcept(!ThrowingMove)
    {
        Ledger::get().used(this); Ledger::get().used(&o);
        if constexpr (ThrowingMove) Ledger::get().tick();
        if (&o != this) { v = o.v; payload = std::move(o.payload); o.v = moved_from; o.payload.clear(); }
        return *this;
    }
    ~TrackedT() { Ledger::get().dead(this); v = -999; }
    friend bool operator==(const TrackedT& a, const TrackedT& b) { Ledger::get().used(&a); Ledger::get().used(&b); return a.v == b.v && a.payload == b.payload; }
    friend auto operator<=>(const TrackedT& a, const TrackedT& b) { return a.v <=> b.v; }
    friend std::ostream& operator<<(std::ostream& o, const TrackedT& t) { return o << t.v; }
};
using Tracked = TrackedT<false>;
using TrackedTM = TrackedT<true>;
#endif
