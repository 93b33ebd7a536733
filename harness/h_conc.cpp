/* P17 parallel loops, P18 concurrent queue, P19 locks and latch, P20 rcu. */
#include "vh.hpp"
#include "utility/thread_pool.hpp"
#include "utility/spinlock.hpp"
#include "utility/shared_spinlock.hpp"
#include "utility/latch.hpp"
#include "utility/rcu.hpp"
#include <barrier>
#include <condition_variable>
#include <shared_mutex>
#include <list>
#include <optional>
#include <algorithm>

using vh::Rng; using vh::Case;
namespace gd = gapp::detail;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
static constexpr bool TSAN =
#ifdef VH_TSAN
    true;
#else
    false;
#endif

/* a counter of the monitors: relaxed, so that it does not order the threads it watches (that would hide races from TSan) */
template<typename T> struct Relaxed
{
    std::atomic<T> a;
    Relaxed(T v = T()) : a(v) {}
    operator T() const { return a.load(std::memory_order_relaxed); }
    T load() const { return a.load(std::memory_order_relaxed); }
    T operator=(T v) { a.store(v, std::memory_order_relaxed); return v; }
    T operator++(int) { return a.fetch_add(1, std::memory_order_relaxed); }
    T operator--(int) { return a.fetch_sub(1, std::memory_order_relaxed); }
    T operator++() { return a.fetch_add(1, std::memory_order_relaxed) + 1; }
    T operator+=(T v) { return a.fetch_add(v, std::memory_order_relaxed) + v; }
    bool compare_exchange_weak(T& e, T v) { return a.compare_exchange_weak(e, v, std::memory_order_relaxed); }
};

static uint64_t now() { return uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count()); }

/* injected delay: nothing, some spinning, a yield or a short sleep */
static void perturb(uint64_t v)
{
    switch (v % 16)
    {
        case 0: std::this_thread::yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(1 + (v >> 8) % 60)); break;
        case 2: case 3: case 4: for (volatile int i = 0; i < int((v >> 8) % 400); i = i + 1) {} break;
        default: break;
    }
}
static uint64_t salt(uint64_t a, uint64_t b, uint64_t c = 0) { return vh::mix(a ^ vh::mix(b + 0x1234567 * c)); }

/* ================= P17 ================= */
struct Payload { uint64_t loop, element; };

struct LoopResult { size_t calls = 0, threads = 0; bool threw = false; };

static std::atomic<uint64_t> g_loop_id{ 1 };

/* Runs one loop over n elements; every body call is recorded. pool == nullptr: the global pool. */
template<typename Body>
static LoopResult runLoop(gd::thread_pool* pool, size_t n, size_t block, double pthrow, uint64_t h, bool pointers, const Body& body, bool record_threads = true)
{
    const uint64_t id = g_loop_id++;
    std::vector<int> calls(n, 0);              // not atomic on purpose: a second or a late call is a data race
    std::vector<char> throws(n, 0); for (size_t i = 0; i < n; i++) throws[i] = double(salt(h, i, 1) >> 11) * 0x1p-53 < pthrow;
    std::vector<std::thread::id> who(n);
    Relaxed<int> running{ 0 }; Relaxed<bool> finished{ false }; Relaxed<bool> late{ false };
    auto f = [&](size_t i)
    {
        running++;
        if (finished) late = true;
        perturb(salt(h, i, 2));
        calls[i]++; who[i] = std::this_thread::get_id();
        struct Leave { Relaxed<int>& r; ~Leave() { r--; } } leave{ running };
        body(i);
        perturb(salt(h, i, 3));
        if (throws[i]) throw Payload{ id, i };
    };
    LoopResult res; size_t thrown = 0;
    try
    {
        auto go = [&](auto first, auto last, auto g) {
            if (pool) pool->execute_loop(first, last, block, g);
            else if (block == 1 && h % 2) gd::parallel_for(first, last, g);
            else gd::parallel_for(first, last, block, g); };
        if (pointers) { std::vector<size_t> idx(n); std::iota(idx.begin(), idx.end(), size_t(0)); go(idx.begin(), idx.end(), [&](size_t& i) { f(i); }); }
        else if (h % 5 == 0) { std::list<size_t> idx; for (size_t i = 0; i < n; i++) idx.push_back(i); go(idx.begin(), idx.end(), [&](size_t i) { f(i); }); }
        else go(gd::iota_iterator(size_t(0)), gd::iota_iterator(n), f);
    }
    catch (const Payload& p)
    {
        res.threw = true; finished = true;
        VH_REQUIRE(p.loop == id, "foreign-exception", "the loop threw an exception of another loop");
        VH_REQUIRE(p.element < n && throws[p.element], "wrong-exception", "the loop threw an exception that no body threw");
        VH_REQUIRE(calls[p.element] == 1, "wrong-exception", "the exception comes from an element that was not called");
    }
    finished = true;
    VH_REQUIRE(running == 0, "returned-early", "the loop returned while ", running.load(), " calls of its body were running");
    std::set<std::thread::id> ids;
    for (size_t i = 0; i < n; i++)
    {
        res.calls += size_t(calls[i]);
        thrown += calls[i] && throws[i];
        if (!res.threw) VH_REQUIRE(calls[i] == 1, "not-exactly-once", "element ", i, " of ", n, " was called ", calls[i], " times (block ", block, ")");
        else VH_REQUIRE(calls[i] <= 1, "not-exactly-once", "element ", i, " of ", n, " was called ", calls[i], " times (block ", block, ", with exceptions)");
        if (calls[i]) ids.insert(who[i]);
    }
    VH_REQUIRE(res.threw == (thrown > 0), "lost-exception", thrown, " bodies threw, but the loop ", res.threw ? "threw" : "did not throw");
    perturb(h);
    VH_REQUIRE(!late && running == 0, "late-call", "the body was called after the loop had returned");
    res.threads = ids.size();
    vh::stat("iterations", res.calls); if (res.threw) vh::stat("loops_with_exceptions"); vh::stat("loops");
    (void) record_threads;
    return res;
}

static size_t loopLength(Rng& r, size_t threads) { return r.pick<size_t>({ 0, 1, 2, 3, threads, threads + 1, threads > 1 ? threads - 1 : 1, threads * 2 + 1, r.below(40), r.below(300) }); }
static size_t blockSize(Rng& r, size_t n) { return std::max<size_t>(1, r.pick<size_t>({ 1, 1, 1, 2, 3, n, n + 1, n / 2, r.below(20) + 1, 1000000 })); }

static void loops(Rng& r, Case& c)
{
    const size_t rounds = 3 + r.below(8);
    size_t threads = gapp::execution_threads(), used = 0;
    for (size_t k = 0; k < rounds; k++)
    {
        if (r.chance(0.4)) { size_t want = r.pick<size_t>({ 1, 2, 3, 8, 1 + r.below(16), r.chance(0.1) ? 0u : 4u }); gapp::execution_threads(want); threads = gapp::execution_threads(); VH_REQUIRE(threads == std::max<size_t>(want, 1), "thread-count", threads, " threads instead of ", want); vh::stat("resizes"); }
        const size_t n = loopLength(r, threads), block = blockSize(r, n);
        const double pthrow = r.chance(0.3) ? r.pick<double>({ 1.0, 0.5, 0.05, 1.0 / double(n + 1) }) : 0;
        auto res = runLoop(nullptr, n, block, pthrow, r.next(), r.chance(0.4), [](size_t) {});
        VH_REQUIRE(res.threads <= threads, "too-many-threads", res.threads, " threads took part with ", threads, " execution threads");
        used = std::max(used, res.threads); vh::maximum("threads_in_one_loop", double(res.threads));
        c.sig(n); c.sig(uint64_t(res.threads)); c.sig(uint64_t(res.calls));
    }
    c.nontrivial = used > 1; c.sample(vh::str(rounds, " loops, up to ", used, " threads"));
}

static void nest(gd::thread_pool* pool, int depth, uint64_t h, double pthrow, Relaxed<size_t>& leaves, size_t& expected_if_clean, const std::vector<size_t>& sizes)
{
    (void) expected_if_clean;
    const size_t n = sizes[size_t(depth)];
    runLoop(pool, n, 1 + h % 3, 0, h, h % 7 == 0, [&](size_t i)
    {
        if (depth == 0) { leaves++; return; }
        nest(pool, depth - 1, salt(h, i, 7), pthrow, leaves, expected_if_clean, sizes);
        if (pthrow > 0 && salt(h, i, 8) % 3 == 0)
        {
            // an inner loop with exceptions, handled inside the body of the outer one
            runLoop(pool, 1 + salt(h, i, 9) % 12, 1, pthrow, salt(h, i, 10), false, [](size_t) {});
        }
    });
}

static void nested(Rng& r, Case& c)
{
    gapp::execution_threads(1 + r.below(10));
    const int depth = int(1 + r.below(3)); std::vector<size_t> sizes; size_t total = 1; for (int d = 0; d <= depth; d++) { sizes.push_back(1 + r.below(depth == 1 ? 20 : 7)); total *= sizes.back(); }
    Relaxed<size_t> leaves{ 0 }; size_t e = 0;
    nest(nullptr, depth, r.next(), r.chance(0.5) ? 0.4 : 0, leaves, e, sizes);
    VH_REQUIRE(leaves == total, "nested-count", leaves.load(), " innermost calls instead of ", total);
    // an exception of an innermost body travels through all loops
    const size_t a = 1 + r.below(10), b = 1 + r.below(10), hit = r.below(a * b); bool caught = false;
    try { gd::parallel_for(gd::iota_iterator(size_t(0)), gd::iota_iterator(a), [&](size_t i) { gd::parallel_for(gd::iota_iterator(size_t(0)), gd::iota_iterator(b), [&](size_t j) { if (i * b + j == hit) throw Payload{ 0, hit }; }); }); }
    catch (const Payload& p) { caught = p.element == hit; }
    VH_REQUIRE(caught, "nested-exception", "an exception of a nested loop did not reach the caller");
    vh::stat("nested_loops"); c.nontrivial = gapp::execution_threads() > 1; c.sig(total); c.sig(uint64_t(depth)); c.sig(uint64_t(gapp::execution_threads())); c.sample(vh::str("depth ", depth + 1, " calls ", total));
}

/* a loop with enough elements runs on as many threads at the same time as were asked for */
static void allThreads(Rng& r, Case& c)
{
    const size_t asked = r.chance(0.1) ? 0 : 1 + r.below(10), threads = std::max<size_t>(asked, 1); std::optional<gd::thread_pool> own;
    if (asked && r.chance(0.3)) { own.emplace(); own->thread_count(asked); } else gapp::execution_threads(asked);
    for (uint64_t k = 1 + r.below(4); k--;)
    {
        const size_t n = threads + r.below(3 * threads); std::mutex m; std::condition_variable cv; std::set<std::thread::id> in; const bool fail = r.chance(0.2); bool gave_up = false;
        auto body = [&](size_t i)
        {
            std::unique_lock l(m); in.insert(std::this_thread::get_id()); cv.notify_all();
            gave_up |= !cv.wait_for(l, std::chrono::seconds(8), [&] { return gave_up || in.size() >= threads; });
            l.unlock(); if (fail && i == n - 1) throw Payload{ 0, i };
        };
        try { if (own) own->execute_loop(gd::iota_iterator(size_t(0)), gd::iota_iterator(n), 1, body); else gd::parallel_for(gd::iota_iterator(size_t(0)), gd::iota_iterator(n), body); } catch (const Payload&) {}
        VH_REQUIRE(in.size() == threads, "threads-used", "a loop over ", n, " elements ran on ", in.size(), " threads with the number of threads set to ", asked);
        vh::stat("loops_on_all_threads"); c.sig(n); c.sig(threads);
    }
    c.nontrivial = threads > 1;
}

static void callers(Rng& r, Case& c)
{
    std::optional<gd::thread_pool> own; gd::thread_pool* pool = nullptr;
    if (r.chance(0.4)) { own.emplace(); pool = &*own; pool->thread_count(1 + r.below(6)); } else gapp::execution_threads(1 + r.below(8));
    const size_t n = 2 + r.below(5), rounds = 2 + r.below(5); const uint64_t h = r.next();
    std::vector<std::thread> th; Relaxed<size_t> done{ 0 };
    std::barrier start{ std::ptrdiff_t(n) };
    for (size_t t = 0; t < n; t++) th.emplace_back([&, t]
    {
        start.arrive_and_wait();
        for (size_t k = 0; k < rounds; k++)
        {
            Rng q(salt(h, t, k)); const size_t len = loopLength(q, 4);
            try
            {
                if (q.chance(0.3)) { Relaxed<size_t> leaves{ 0 }; size_t e = 0; std::vector<size_t> s{ 1 + q.below(5), 1 + q.below(5) }; nest(pool, 1, q.next(), 0.2, leaves, e, s); VH_REQUIRE(leaves == s[0] * s[1], "nested-count", "wrong number of calls"); }
                else runLoop(pool, len, blockSize(q, len), q.chance(0.3) ? 0.2 : 0, q.next(), q.chance(0.3), [](size_t) {});
                done++;
            }
            catch (const vh::CaseFail&) { return; }
            catch (...) { vh::fail("foreign-exception", "an exception of another loop reached this caller"); return; }
        }
    });
    for (auto& t : th) t.join();
    vh::stat("concurrent_loops", done); c.nontrivial = true; c.sig(h); c.sample(vh::str(n, " callers, ", rounds, " loops each"));
}

static void pools(Rng& r, Case& c)
{
    // own pools: created, resized between loops and destroyed, right after loops with exceptions as well
    gd::thread_pool pool; size_t total = 0;
    VH_REQUIRE(pool.thread_count() == std::max(std::thread::hardware_concurrency(), 1u), "thread-count", "default thread count ", pool.thread_count());
    for (uint64_t k = 1 + r.below(6); k--;)
    {
        size_t want = 1 + r.below(10); pool.thread_count(want); VH_REQUIRE(pool.thread_count() == want, "thread-count", pool.thread_count(), " threads instead of ", want);
        if (r.chance(0.2)) pool.reset_scheduler();
        size_t n = loopLength(r, want);
        total += runLoop(&pool, n, blockSize(r, n), r.chance(0.4) ? 0.3 : 0, r.next(), r.chance(0.4), [](size_t) {}).calls; vh::stat("resizes");
    }
    c.nontrivial = total > 1; c.sig(total); c.sig(r.s);
}

static void p17()
{
    vh::cases("threads", TSAN ? 150 : 400, 10000, allThreads);
    vh::cases("loops", TSAN ? 600 : 2000, 100000, loops);
    vh::cases("nested", TSAN ? 150 : 300, 20000, nested);
    vh::cases("callers", TSAN ? 200 : 500, 30000, callers);
    vh::cases("pools", TSAN ? 100 : 300, 20000, pools);
}

/* ================= P18 ================= */
static Relaxed<int64_t> g_items{ 0 };
struct Item
{
    uint64_t id = 0; uint32_t* plain = nullptr; bool valid = true;
    explicit Item(uint64_t i, uint32_t* p = nullptr) : id(i), plain(p) { g_items++; }
    Item(Item&& o) noexcept : id(o.id), plain(o.plain), valid(std::exchange(o.valid, false)) { g_items++; }
    Item& operator=(Item&& o) noexcept { id = o.id; plain = o.plain; valid = std::exchange(o.valid, false); return *this; }
    ~Item() { g_items--; }
};

struct Op { int kind; uint64_t id, start, end; size_t thread; };   // 0 push ok, 1 push refused, 2 pop, 3 pop nothing, 4 empty() true, 5 empty() false, 6 close, 7 closed() true, 8 closed() false

static void checkHistory(std::vector<Op> ops, size_t leftover_expected)
{
    const uint64_t INF = ~0ull;
    std::map<uint64_t, const Op*> push, pop; const Op* close = nullptr; std::vector<const Op*> closes;
    for (auto& o : ops)
    {
        if (o.kind == 0) VH_REQUIRE(push.emplace(o.id, &o).second, "self-test", "value pushed twice");
        if (o.kind == 2) VH_REQUIRE(pop.emplace(o.id, &o).second, "popped-twice", "element ", o.id, " was popped twice");
        if (o.kind == 6) { closes.push_back(&o); if (!close || o.end < close->end) close = &o; }
    }
    uint64_t firstCloseStart = INF; for (auto* k : closes) firstCloseStart = std::min(firstCloseStart, k->start);
    for (auto& [id, o] : pop)
    {
        auto p = push.find(id); VH_REQUIRE(p != push.end(), "popped-unknown", "element ", id, " was popped but never pushed successfully");
        VH_REQUIRE(p->second->start <= o->end, "popped-before-push", "element ", id, " was popped before it was pushed");
    }
    VH_REQUIRE(pop.size() + leftover_expected == push.size(), "lost-element", push.size(), " elements pushed, ", pop.size(), " popped, ", leftover_expected, " should be left");
    // real time order of pushes = real time order of pops
    std::vector<std::array<uint64_t, 5>> ev;   // push start, push end, pop start, pop end, id
    for (auto& [id, o] : push) { auto q = pop.find(id); ev.push_back({ o->start, o->end, q == pop.end() ? INF : q->second->start, q == pop.end() ? INF : q->second->end, id }); }
    // x pushed entirely before y, y popped entirely before x: sweep by push times
    std::vector<size_t> byEnd(ev.size()), byStart(ev.size()); for (size_t i = 0; i < ev.size(); i++) byEnd[i] = byStart[i] = i;
    std::sort(byEnd.begin(), byEnd.end(), [&](size_t a, size_t b) { return ev[a][1] < ev[b][1]; });
    std::sort(byStart.begin(), byStart.end(), [&](size_t a, size_t b) { return ev[a][0] < ev[b][0]; });
    uint64_t latestPop = 0, who = 0; size_t k = 0; uint64_t compared = 0;
    for (size_t y : byStart)
    {
        while (k < byEnd.size() && ev[byEnd[k]][1] < ev[y][0]) { if (ev[byEnd[k]][2] >= latestPop) { latestPop = ev[byEnd[k]][2]; who = ev[byEnd[k]][4]; } k++; }
        compared += k;
        VH_REQUIRE(k == 0 || !(ev[y][3] < latestPop), "not-fifo", "element ", who, " was pushed before element ", ev[y][4], " but popped after it");
    }
    vh::stat("ordered_pairs", compared);
    for (auto& o : ops)
    {
        if (o.kind == 0) VH_REQUIRE(!close || o.start <= close->end, "pushed-after-close", "a push that started after the queue was closed succeeded");
        if (o.kind == 1) VH_REQUIRE(firstCloseStart <= o.end, "refused-while-open", "a push was refused before the queue was closed");
        if (o.kind == 7) VH_REQUIRE(firstCloseStart <= o.end, "closed-while-open", "closed() was true before the queue was closed");
        if (o.kind == 8) VH_REQUIRE(!close || o.start <= close->end, "open-after-close", "closed() was false after the queue was closed");
        if (o.kind == 3) VH_REQUIRE(firstCloseStart <= o.end, "nothing-while-open", "a pop got nothing before the queue was closed");
        if (o.kind == 3 || o.kind == 4)
        {
            // an element that was in the queue during the whole call
            for (auto& e : ev) VH_REQUIRE(!(e[1] < o.start && e[2] > o.end), o.kind == 3 ? "nothing-while-nonempty" : "empty-while-nonempty", o.kind == 3 ? "a pop got nothing" : "empty() was true", " while element ", e[4], " was in the queue");
        }
        if (o.kind == 5)
        {
            bool possible = false; for (auto& e : ev) possible |= e[0] <= o.end && e[3] >= o.start;
            VH_REQUIRE(possible, "nonempty-while-empty", "empty() was false while no element could be in the queue");
        }
    }
    vh::stat("history_events", ops.size());
}

static void queue(Rng& r, Case& c)
{
    const size_t np = 1 + r.below(5), nc = 1 + r.below(5), per = 1 + r.below(r.chance(0.2) ? 200 : 40);
    const bool early = r.chance(0.4); const uint64_t h = r.next(); const int64_t before = g_items;
    size_t leftover = 0;
    std::vector<Op> all;
    {
        gd::concurrent_queue<Item> q; std::vector<std::vector<Op>> logs(np + nc + 2); std::vector<uint32_t> plain(np * per + 1, 0);
        std::barrier start{ std::ptrdiff_t(np + nc + (early ? 1 : 0)) };
        std::vector<std::thread> prod, cons;
        auto timed = [&](size_t t, auto f) { Op o{}; o.thread = t; o.start = now(); f(o); o.end = now(); logs[t].push_back(o); return o.kind; };
        for (size_t t = 0; t < np; t++) prod.emplace_back([&, t] {
            start.arrive_and_wait();
            for (size_t i = 0; i < per; i++)
            {
                const uint64_t id = t * per + i; perturb(salt(h, id, 1)); plain[id] = uint32_t(id * 3 + 1);
                timed(t, [&](Op& o) { o.id = id; if (salt(h, id, 2) % 2) { o.kind = q.emplace(id, &plain[id]) ? 0 : 1; } else { Item x(id, &plain[id]); bool ok = q.emplace(std::move(x)); o.kind = ok ? 0 : 1; if (!ok) VH_CHECK(x.valid, "refused-consumed", "a refused push consumed its argument"); else VH_CHECK(!x.valid, "push-copied", "a push did not move its argument"); } });
                if (salt(h, id, 3) % 5 == 0) timed(t, [&](Op& o) { o.kind = q.empty() ? 4 : 5; });
                if (salt(h, id, 4) % 9 == 0) timed(t, [&](Op& o) { o.kind = q.closed() ? 7 : 8; });
            }
        });
        for (size_t t = 0; t < nc; t++) cons.emplace_back([&, t] {
            const size_t me = np + t; start.arrive_and_wait(); int nothing = 0;
            for (size_t i = 0; nothing < 2; i++)
            {
                perturb(salt(h, me * 1000003 + i, 5));
                timed(me, [&](Op& o) { auto x = q.take(); o.kind = x ? 2 : 3; if (x) { o.id = x->id; VH_CHECK(x->valid, "popped-invalid", "a popped element was moved from"); if (x->plain) VH_CHECK(*x->plain == uint32_t(x->id * 3 + 1), "not-visible", "the pushing thread's writes are not visible to the popping thread"); } else nothing++; });
            }
        });
        std::thread closer; auto doClose = [&] { timed(np + nc, [&](Op& o) { o.kind = 6; q.close(); }); if (h % 3 == 0) q.close(); };
        if (early) closer = std::thread([&] { start.arrive_and_wait(); for (uint64_t k = h % 40; k--;) perturb(salt(h, k, 6)); doClose(); });
        for (auto& t : prod) t.join();
        if (!early) doClose(); else closer.join();
        for (auto& t : cons) t.join();
        VH_REQUIRE(q.empty() && q.closed(), "not-drained", "the queue is not empty and closed after its consumers got nothing");
        VH_REQUIRE(!q.emplace(uint64_t(0)), "pushed-after-close", "a push into a closed queue succeeded");
        VH_REQUIRE(!q.take().has_value(), "popped-from-empty", "a pop from an empty closed queue got something");
        for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
    }
    checkHistory(all, leftover);
    VH_REQUIRE(g_items == before, "lifetime", g_items - before, " elements were not destroyed");
    size_t pops = 0; for (auto& o : all) pops += o.kind == 2;
    vh::stat("elements", pops); if (early) vh::stat("closed_while_used");
    c.nontrivial = pops > 1 && np + nc > 2; c.sig(h); c.sig(uint64_t(pops)); c.sample(vh::str(np, " producers ", nc, " consumers, ", pops, " elements popped", early ? ", closed early" : ""));
}

/* every push wakes a blocked consumer: strictly alternating hand-over through two queues, and many consumers waiting for one push each */
static void wakeups(Rng& r, Case& c)
{
    gd::concurrent_queue<int> a, b; const int n = 200; Relaxed<int> got{ 0 };
    std::thread t([&] { for (int i = 0; i < n; i++) { auto x = a.take(); if (x && *x == i) got++; (void) b.emplace(i); } });
    for (int i = 0; i < n; i++) { (void) a.emplace(i); auto x = b.take(); VH_CHECK(x && *x == i, "handover", "wrong element handed back"); }
    t.join(); VH_REQUIRE(got == n, "handover", got.load(), " of ", n, " elements handed over");
    const size_t k = 1 + r.below(6); gd::concurrent_queue<int> q; Relaxed<size_t> woken{ 0 }, nothing{ 0 }; std::vector<std::thread> th; const size_t give = r.below(k + 1);
    for (size_t i = 0; i < k; i++) th.emplace_back([&] { if (q.take()) woken++; else nothing++; });
    if (r.chance(0.7)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));   // most of them are blocked now
    for (size_t i = 0; i < give; i++) (void) q.emplace(int(i));
    while (woken < give) std::this_thread::yield();     // a lost wake-up shows as a hang
    perturb(r.next());
    VH_REQUIRE(nothing == 0, "nothing-while-open", "a pop got nothing from an open queue");
    q.close(); for (auto& x : th) x.join();
    VH_REQUIRE(woken == give && nothing == k - give, "wakeups", woken.load(), " consumers got something, ", nothing.load(), " nothing");
    vh::stat("wakeups", uint64_t(2 * n) + k); c.nontrivial = true; c.sig(r.s); c.sig(uint64_t(k * 16 + give));
}

/* consumers blocked on an empty queue, elements pushed and the queue closed right away: every accepted element must still be taken */
static void lastElements(Rng& r, Case& c)
{
    const size_t k = 1 + r.below(5), m = 1 + r.below(k + 3); const int64_t before = g_items;
    {
        gd::concurrent_queue<Item> q; std::vector<std::thread> th; Relaxed<size_t> taken{ 0 }, accepted{ 0 }, running{ 0 };
        for (size_t i = 0; i < k; i++) th.emplace_back([&] { running++; while (q.take()) taken++; });
        while (running < k) std::this_thread::yield();
        std::this_thread::sleep_for(std::chrono::microseconds(r.pick<int>({ 0, 50, 100, 300 })));     // most of them are blocked now
        const bool by_others = r.chance(0.3); std::vector<std::thread> prod;
        for (size_t i = 0; i < m; i++) { auto push = [&q, &accepted, i] { if (q.emplace(uint64_t(i))) accepted++; }; if (by_others) prod.emplace_back(push); else push(); }
        if (r.chance(0.3)) perturb(r.next());
        q.close();
        for (auto& t : prod) t.join();
        for (auto& t : th) t.join();
        VH_REQUIRE(by_others || accepted == m, "refused-while-open", "a push was refused before the queue was closed");
        VH_REQUIRE(taken == accepted, "lost-element", accepted.load(), " elements pushed before the queue was closed, ", taken.load(), " taken by the time every consumer got nothing");
        VH_REQUIRE(q.empty(), "not-drained", "the queue is not empty after its consumers got nothing");
        vh::stat("last_elements", taken);
    }
    VH_REQUIRE(g_items == before, "lifetime", g_items - before, " elements were not destroyed");
    c.nontrivial = true; c.sig(r.s); c.sample(vh::str(k, " blocked consumers, ", m, " elements pushed and closed at once"));
}

struct Thrower { int v; bool armed; Thrower(int x, bool a) : v(x), armed(a) { if (a && x < 0) throw 1; } Thrower(Thrower&& o) : v(o.v), armed(o.armed) { if (armed && o.v == 7) { o.armed = false; throw 2; } } };
static void sequential(Rng& r, Case& c)
{
    // one thread, against a reference queue; exceptions of constructors leave the queue unchanged and usable
    gd::concurrent_queue<Thrower> q; std::deque<int> ref; bool closed = false; size_t ops = 0, injected = 0;
    for (int i = 0; i < 100; i++, ops++)
    {
        VH_REQUIRE(q.empty() == ref.empty() && q.closed() == closed, "sequential", "empty or closed state is wrong");
        if (r.chance(0.55))
        {
            int v = int(r.below(10)) - 1; bool arm = r.chance(0.3); bool ok = false, threw = false;
            try { ok = q.emplace(v, arm); } catch (int) { threw = true; injected++; }
            VH_REQUIRE(threw == (!closed && arm && v < 0), "sequential-exception", "exception of a constructor");
            VH_REQUIRE(threw || ok == !closed, "sequential", "push ", ok ? "succeeded" : "refused");
            if (ok) ref.push_back(v);
        }
        else if (!ref.empty() || closed)
        {
            try { auto x = q.take(); VH_REQUIRE(x.has_value() == !ref.empty(), "sequential", "pop got ", x.has_value() ? "something" : "nothing"); if (x) { VH_REQUIRE(x->v == ref.front(), "sequential-fifo", "popped ", x->v, " instead of ", ref.front()); ref.pop_front(); } }
            catch (int) { injected++; VH_REQUIRE(!ref.empty() && ref.front() == 7, "sequential-exception", "exception of a move"); }
        }
        if (r.chance(0.01)) { q.close(); closed = true; }
    }
    vh::stat("sequential_operations", ops); vh::stat("injected_exceptions", injected); c.nontrivial = ops > 10; c.sig(r.s);
}

static void p18()
{
    vh::cases("queue", TSAN ? 400 : 1200, 100000, queue);
    vh::cases("wakeups", TSAN ? 60 : 200, 10000, wakeups);
    vh::cases("last", TSAN ? 300 : 1000, 60000, lastElements);
    vh::cases("sequential", 1000, 50000, sequential);
}

/* ================= P19 ================= */
static void spin(Rng& r, Case& c)
{
    gd::spinlock lk; const size_t n = 2 + r.below(6), iters = 100 + r.below(400); const uint64_t h = r.next();
    uint64_t plain = 0, shadow = 0; Relaxed<int> in{ 0 }; Relaxed<uint64_t> tries{ 0 }, fails{ 0 }, total{ 0 }; std::vector<std::thread> th;
    const double ptry = r.pick<double>({ 0.0, 0.5, 1.0 }); const uint64_t deadline = now() + 1'000'000'000;
    for (size_t t = 0; t < n; t++) th.emplace_back([&, t] {
        Rng q(salt(h, t)); uint64_t mine = 0;
        for (size_t i = 0; i < iters && now() < deadline; i++)
        {
            if (q.chance(ptry)) { tries++; if (!lk.try_lock()) { fails++; continue; } } else lk.lock();
            VH_CHECK(in++ == 0, "spin-exclusion", "two holders of the spinlock");
            VH_CHECK(plain == shadow, "spin-visibility", "the previous holder's writes are not visible");
            plain++; perturb(q.next()); shadow++; mine++;
            in--; lk.unlock();
        }
        total += mine;
    });
    for (auto& t : th) t.join();
    VH_REQUIRE(plain == total && shadow == total, "spin-lost-update", plain, " updates instead of ", total.load());
    VH_REQUIRE(lk.try_lock(), "spin-try", "try_lock failed on a free lock"); VH_REQUIRE(!lk.try_lock(), "spin-try", "try_lock succeeded on a held lock");
    { bool other = true; std::thread t([&] { other = lk.try_lock(); }); t.join(); VH_REQUIRE(!other, "spin-try", "try_lock of another thread succeeded on a held lock"); }
    lk.unlock(); VH_REQUIRE(lk.try_lock(), "spin-try", "try_lock failed after unlock"); lk.unlock(); lk.lock(); lk.unlock();
    vh::stat("lock_acquisitions", total); vh::stat("failed_tries", fails); c.nontrivial = total > n; c.sig(h); c.sig(uint64_t(total)); c.sample(vh::str(n, " threads, ", total.load(), " acquisitions, ", fails.load(), " failed tries"));
}

static void shared(Rng& r, Case& c)
{
    gd::shared_spinlock lk; const size_t n = 2 + r.below(6), iters = 60 + r.below(200); const uint64_t h = r.next(); const double pwrite = r.pick<double>({ 0.1, 0.4, 0.9 }), ptry = r.pick<double>({ 0.0, 0.5, 1.0 });
    uint64_t plain = 0, shadow = 0; Relaxed<int> readers{ 0 }, writers{ 0 }; Relaxed<uint64_t> w{ 0 }, rd{ 0 }, fails{ 0 }; Relaxed<int> together{ 0 }; const uint64_t deadline = now() + 1'000'000'000;
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++) th.emplace_back([&, t] {
        Rng q(salt(h, t));
        for (size_t i = 0; i < iters && now() < deadline; i++)
        {
            if (q.chance(pwrite))
            {
                if (q.chance(ptry)) { if (!lk.try_lock()) { fails++; continue; } } else lk.lock();
                VH_CHECK(writers++ == 0 && readers == 0, "shared-exclusion", "an exclusive holder is not alone");
                VH_CHECK(plain == shadow, "shared-visibility", "the previous holder's writes are not visible");
                plain++; perturb(q.next()); shadow++; w++;
                VH_CHECK(writers == 1 && readers == 0, "shared-exclusion", "an exclusive holder is not alone");
                writers--; lk.unlock();
            }
            else
            {
                if (q.chance(ptry)) { if (!lk.try_lock_shared()) { fails++; continue; } } else lk.lock_shared();
                int k = ++readers; int m = together; while (k > m && !together.compare_exchange_weak(m, k)) {}
                VH_CHECK(writers == 0, "shared-exclusion", "a shared holder together with an exclusive one");
                const uint64_t a = plain; perturb(q.next());
                VH_CHECK(a == plain && a == shadow, "shared-visibility", "the protected data changed under a shared lock");
                VH_CHECK(writers == 0, "shared-exclusion", "a shared holder together with an exclusive one");
                rd++; readers--; lk.unlock_shared();
            }
        }
    });
    for (auto& t : th) t.join();
    VH_REQUIRE(plain == w && shadow == w, "shared-lost-update", plain, " updates instead of ", w.load());
    vh::maximum("readers_together", together); vh::stat("exclusive_acquisitions", w); vh::stat("shared_acquisitions", rd); vh::stat("failed_tries", fails);
    c.nontrivial = w > 0 && rd > 0; c.sig(h); c.sig(uint64_t(w)); c.sig(uint64_t(rd)); c.sample(vh::str(n, " threads, ", w.load(), " exclusive and ", rd.load(), " shared acquisitions, up to ", together.load(), " readers together"));
}

/* single-step protocol: which acquisitions are possible in which state, including after failed tries */
static void sharedStates(Rng& r, Case& c)
{
    gd::shared_spinlock lk; size_t readers = 0; bool writer = false; size_t steps = 0; uint64_t cover = 0;
    auto elsewhere = [&](auto f) { if (r.chance(0.05)) { bool v = false; std::thread t([&] { v = f(); }); t.join(); return v; } return f(); };
    for (int i = 0; i < 300; i++, steps++)
    {
        switch (r.below(6))
        {
            case 0: { bool ok = elsewhere([&] { return lk.try_lock(); }); VH_REQUIRE(ok == (!writer && !readers), "shared-try", "try_lock ", ok, " with ", readers, " readers and writer ", writer); writer |= ok; cover |= 1u << (ok * 2 + (readers > 0)); break; }
            case 1: { bool ok = elsewhere([&] { return lk.try_lock_shared(); }); VH_REQUIRE(ok == !writer, "shared-try", "try_lock_shared ", ok, " with ", readers, " readers and writer ", writer); readers += ok; cover |= 16u << (ok * 2 + (readers > 1)); break; }
            case 2: if (!writer) { lk.lock_shared(); readers++; } break;
            case 3: if (!writer && !readers) { lk.lock(); writer = true; } break;
            case 4: if (readers) { lk.unlock_shared(); readers--; } break;
            default: if (writer) { lk.unlock(); writer = false; }
        }
    }
    while (readers) { lk.unlock_shared(); readers--; } if (writer) lk.unlock();
    VH_REQUIRE(lk.try_lock(), "shared-try", "the lock is not free after all holders have left");
    gd::spinlock sl; bool held = false;
    for (int i = 0; i < 100; i++) { if (r.chance(0.5)) { bool ok = elsewhere([&] { return sl.try_lock(); }); VH_REQUIRE(ok == !held, "spin-try", "try_lock ", ok, " while held ", held); held |= ok; } else if (held) { sl.unlock(); held = false; } else { sl.lock(); held = true; } }
    vh::stat("lock_steps", steps); c.nontrivial = true; c.sig(cover); c.sig(r.s);
}

/* any number of readers really hold the lock at the same time; a waiting writer gets in once they leave, waiting readers once the writer leaves */
static void sharedTogether(Rng& r, Case& c)
{
    gd::shared_spinlock lk; const size_t n = 2 + r.below(8); std::barrier all{ std::ptrdiff_t(n) }; std::vector<std::thread> th; Relaxed<bool> wrote{ false }; Relaxed<size_t> after{ 0 }; int data = 0;
    lk.lock();
    for (size_t t = 0; t < n; t++) th.emplace_back([&, t] { if (t % 2) while (!lk.try_lock_shared()) std::this_thread::yield(); else lk.lock_shared(); VH_CHECK(data >= 1, "shared-visibility", "the writer's data is not visible"); all.arrive_and_wait(); all.arrive_and_wait(); lk.unlock_shared(); after++; });
    perturb(r.next()); data = 1; lk.unlock();
    std::thread w([&] { lk.lock(); VH_CHECK(data >= 1, "shared-visibility", "stale data"); data = 2; wrote = true; lk.unlock(); });
    w.join(); for (auto& t : th) t.join();
    VH_REQUIRE(wrote && after == n && data == 2, "shared-progress", "not every holder got the lock");
    vh::stat("readers_together_checked", n); vh::maximum("readers_at_once", double(n)); c.nontrivial = true; c.sig(uint64_t(n)); c.sig(r.s);
}

static void latches(Rng& r, Case& c)
{
    const uint32_t n = uint32_t(r.below(40)); const size_t waiters = 1 + r.below(4), counters = 1 + r.below(6); const uint64_t h = r.next();
    gd::latch l(n); std::vector<uint64_t> data(counters, 0); Relaxed<uint32_t> counted{ 0 }; std::vector<std::thread> th; Relaxed<size_t> polls{ 0 };
    if (n) VH_REQUIRE(!l.try_wait(), "latch-early", "try_wait succeeded with count ", n);
    std::vector<uint32_t> share(counters, 0); for (uint32_t i = 0; i < n; i++) share[r.below(counters)]++;
    for (size_t t = 0; t < counters; t++) th.emplace_back([&, t] {
        Rng q(salt(h, t)); uint32_t left = share[t]; data[t] = t + 1;
        while (left) { perturb(q.next()); uint32_t k = q.chance(0.6) ? 1 : 1 + uint32_t(q.below(left)); if (k == left) data[t] = t + 100; counted += k; if (k == 1 && q.chance(0.5)) l.count_down(); else l.count_down(k); left -= k; } });
    for (size_t w = 0; w < waiters; w++) th.emplace_back([&, w] {
        Rng q(salt(h, 1000 + w)); perturb(q.next());
        if (q.chance(0.5)) l.wait(); else while (!l.try_wait()) { polls++; std::this_thread::yield(); }
        VH_CHECK(counted == n, "latch-early", "a wait returned after ", counted.load(), " of ", n, " counts");
        for (size_t t = 0; t < counters; t++) if (share[t]) VH_CHECK(data[t] == t + 100, "latch-visibility", "a counting thread's writes are not visible after the wait");
        l.wait(); VH_CHECK(l.try_wait(), "latch-open", "the latch is closed again"); });
    for (auto& t : th) t.join();
    VH_REQUIRE(l.try_wait(), "latch-open", "the latch did not open"); l.wait();
    vh::stat("latch_waits", waiters); vh::stat("latch_polls", polls); c.nontrivial = n > 0; c.sig(h); c.sig(uint64_t(n)); c.sample(vh::str("count ", n, ", ", counters, " counting, ", waiters, " waiting threads"));
}

static void p19()
{
    vh::cases("spinlock", TSAN ? 150 : 400, 30000, spin);
    vh::cases("shared", TSAN ? 200 : 500, 30000, shared);
    vh::cases("states", 500, 20000, sharedStates);
    vh::cases("together", TSAN ? 100 : 300, 20000, sharedTogether);
    vh::cases("latch", TSAN ? 300 : 800, 50000, latches);
}

/* ================= P20 ================= */
struct Versioned
{
    static constexpr uint64_t LIVE = 0xA11CE5ull, DEAD = 0xDEADull;
    static inline Relaxed<int64_t> alive{ 0 }; static inline Relaxed<uint64_t> destroyed{ 0 }, created{ 0 }; static inline Relaxed<uint64_t> double_destroyed{ 0 };
    uint64_t magic = LIVE, version, twice;
    Versioned(uint64_t v = 0) : version(v), twice(2 * v) { alive++; created++; }
    Versioned(const Versioned& o) : version(o.version), twice(o.twice) { alive++; created++; }
    ~Versioned() { if (magic != LIVE) double_destroyed++; *static_cast<volatile uint64_t*>(&magic) = DEAD; *static_cast<volatile uint64_t*>(&twice) = 1; alive--; destroyed++; }
    bool ok() const { return *static_cast<const volatile uint64_t*>(&magic) == LIVE && *static_cast<const volatile uint64_t*>(&twice) == 2 * *static_cast<const volatile uint64_t*>(&version); }
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if !defined(VH_TSAN) && !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
    // plain builds: keep freed objects for a while, so that a reader that still uses one sees the mark of its destructor
    struct Keep { std::deque<void*> q; ~Keep() { for (void* p : q) ::operator delete(p); } };
    static inline thread_local Keep keep;
    static void operator delete(void* p) { keep.q.push_back(p); if (keep.q.size() > 4096) { ::operator delete(keep.q.front()); keep.q.pop_front(); } }
    static void* operator new(size_t n) { return ::operator new(n); }
#endif
};
using Obj = gd::rcu_obj<Versioned>;
struct alignas(64) Line { std::atomic<uint64_t> x{ 0 }; };
static Line g_lines[64];

/* Readers against writers on one or two objects; each reader checks the objects at the beginning and the end of its (nested) critical sections. */
static void rcu(Rng& r, Case& c)
{
    const size_t nr = 1 + r.below(5), nw = 1 + r.below(2); const uint64_t h = r.next(); const bool delays = r.chance(0.5); const size_t stores = r.pick<size_t>({ 0, 8, 40 }), writes = delays ? 60 : 3000, mode = r.below(4);
    const int64_t before = Versioned::alive; Relaxed<uint64_t> sections{ 0 }, seen{ 0 }, nestedCount{ 0 };
    {
        Obj a{ uint64_t(0) }, b{ uint64_t(0) }; Relaxed<uint64_t> published{ 0 }; std::atomic<size_t> active{ nw }; std::vector<std::thread> th; Relaxed<uint64_t> done{ 0 }; const uint64_t deadline = now() + 400'000'000;
        for (size_t t = 0; t < nr; t++) th.emplace_back([&, t] {
            Rng q(salt(h, t)); uint64_t last = 0, n = 0, distinct = 0, nestings = 0;
            auto read = [&](const Obj& o, bool mono) {
                const Versioned& v = o.get();
                VH_CHECK(v.ok(), "reclaimed", "a reader sees a reclaimed object at the start of its critical section");
                const uint64_t ver = v.version; if (mono) { VH_CHECK(ver >= last, "went-back", "a reader saw version ", ver, " after version ", last); distinct += ver != last; last = ver; }
                return &v; };
            while (active)
            {
                for (size_t k = 0; k < stores; k++) g_lines[k].x.store(n, std::memory_order_relaxed);
                const uint64_t pub = published.load();
                if (mode == 0 || q.chance(0.6))
                {
                    std::shared_lock s{ a }; const Versioned* v = read(a, nw == 1);
                    if (nw == 1) VH_CHECK(v->version >= pub, "stale", "a reader saw version ", v->version, " after version ", pub, " was published");
                    if (delays) perturb(q.next()); else for (int k = 0; k < 12; k++) VH_CHECK(v->ok(), "reclaimed", "an object was reclaimed inside a critical section that uses it");
                    VH_CHECK(v->ok(), "reclaimed", "an object was reclaimed inside a critical section that uses it");
                }
                else if (mode == 1)
                {
                    // nested on one object
                    std::shared_lock s{ a }; const Versioned* v = read(a, nw == 1);
                    for (uint64_t k = 1 + q.below(3); k--;) { std::shared_lock s2{ a }; const Versioned* v2 = read(a, nw == 1); if (delays) perturb(q.next()); VH_CHECK(v2->ok(), "reclaimed", "an object was reclaimed inside a nested critical section"); nestings++; }
                    if (delays) perturb(q.next());
                    for (int k = 0; k < 20; k++) VH_CHECK(v->ok(), "reclaimed-nested", "an object was reclaimed in the outer critical section after an inner one ended");
                }
                else
                {
                    // two objects, left in any order
                    std::shared_lock s{ a }; const Versioned* v = read(a, nw == 1); std::shared_lock s2{ b }; const Versioned* u = read(b, false);
                    if (delays) perturb(q.next());
                    if (q.chance(0.5)) { s2.unlock(); if (delays) perturb(q.next()); for (int k = 0; k < 20; k++) VH_CHECK(v->ok(), "reclaimed-nested", "an object was reclaimed after the critical section of another object ended"); }
                    else { s.unlock(); if (delays) perturb(q.next()); for (int k = 0; k < 20; k++) VH_CHECK(u->ok(), "reclaimed-nested", "an object was reclaimed after the critical section of another object ended"); }
                    nestings++;
                }
                n++;
            }
            sections += n; seen += distinct; nestedCount += nestings;
        });
        // readers that live for one critical section only
        std::thread shortlived([&] { uint64_t k = 0; while (active && k < 200) { std::thread t([&] { std::shared_lock s{ a }; const Versioned& v = a.get(); VH_CHECK(v.ok(), "reclaimed", "a short-lived reader sees a reclaimed object"); if (delays) perturb(salt(h, k, 3)); VH_CHECK(v.ok(), "reclaimed", "reclaimed under a short-lived reader"); }); t.join(); k++; } });
        std::vector<std::thread> ws;
        for (size_t w = 0; w < nw; w++) ws.emplace_back([&, w] {
            Rng q(salt(h, 500 + w));
            for (size_t i = 1; i <= writes && now() < deadline; i++)   // on a busy machine a grace period takes a time slice
            {
                if (delays) perturb(q.next());
                a = Versioned(i); done++; if (nw == 1) published = i;
                if (mode >= 2) b = Versioned(i);
                if (i % 16 == 0) a.wait_for_readers();
            }
            active--; });
        for (auto& t : ws) t.join(); for (auto& t : th) t.join(); shortlived.join();
        if (nw == 1) VH_REQUIRE(a->version == done, "last-version", "the last published version is ", a->version, " instead of ", done.load());
        const int64_t expect = before + 2; VH_REQUIRE(Versioned::alive == expect, "not-reclaimed", Versioned::alive - expect, " retired objects are still alive");
        vh::stat("versions_published", done);
    }
    VH_REQUIRE(Versioned::alive == before, "not-reclaimed", Versioned::alive - before, " objects were not destroyed"); VH_REQUIRE(Versioned::double_destroyed == 0, "reclaimed-twice", "an object was destroyed twice");
    vh::stat("critical_sections", sections); vh::stat("version_changes_seen", seen); vh::stat("nested_sections", nestedCount); if (stores && !delays) vh::stat("store_buffer_litmus_runs");
    c.nontrivial = sections > nr && nr + nw > 2; c.sig(h); c.sig(uint64_t(sections)); c.sample(vh::str(nr, " readers ", nw, " writers, ", sections.load(), " critical sections, ", seen.load(), " version changes seen"));
}

/* A synchronisation waits for the readers that were inside, and not for readers that come later, however they overlap. */
static void grace(Rng& r, Case& c)
{
    Obj a{ uint64_t(1) }; std::atomic<int> phase{ 0 }; Relaxed<bool> written{ false }; Relaxed<uint64_t> rounds{ 0 }; Relaxed<bool> stuck{ false }; const bool nestedReader = r.chance(0.5); const uint64_t hold = 100'000 + r.below(2'000'000);
    const size_t later = 1 + r.below(3);
    std::thread early([&] {
        std::shared_lock s{ a }; const Versioned& v = a.get(); if (nestedReader) { std::shared_lock s2{ a }; }
        phase = 1; const uint64_t t0 = now();
        while (now() - t0 < hold) { std::this_thread::yield(); VH_CHECK(v.ok() && v.version == 1, "reclaimed", "the old object was reclaimed under a reader"); VH_CHECK(!written, "no-grace", "a writer did not wait for a reader that was inside"); }
        phase = 2; });
    while (phase < 1) std::this_thread::yield();
    std::thread writer([&] { a = Versioned(2); written = true; });
    // later readers: all of them enter again and again, so that some of them are always inside
    std::vector<std::thread> th; Relaxed<bool> done{ false };
    for (size_t t = 0; t < later; t++) th.emplace_back([&, t] {
        // sections that begin long after the new version became visible and last until the writer is done
        for (;;) { { std::shared_lock s{ a }; if (a.get().version == 2) break; } std::this_thread::yield(); }
        for (int k = 0; k < 200 && !written; k++)
        {
            std::shared_lock s{ a }; VH_CHECK(a.get().version == 2, "stale", "a later reader sees the old version"); rounds++;
            const uint64_t t0 = now(); while (!written && now() - t0 < 20'000'000 * (t + 1)) std::this_thread::yield();
        }
        if (!written) stuck = true; });
    if (r.chance(0.5)) th.emplace_back([&] { std::shared_lock s{ a }; VH_CHECK(a.get().ok(), "reclaimed", "a new thread sees a reclaimed object"); });
    for (auto& t : th) t.join(); early.join(); writer.join();
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    a.wait_for_readers();
    VH_REQUIRE(!stuck, "waits-for-later-readers", "a writer waited for readers that began after it");
    vh::stat("grace_periods"); c.nontrivial = true; c.sig(r.s); c.sig(uint64_t(rounds));
}

static void p20()
{
    vh::cases("rcu", TSAN ? 60 : 150, 10000, rcu);
    vh::cases("grace", TSAN ? 60 : 200, 10000, grace);
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const std::string& p) { if (p == "P17") p17(); else if (p == "P18") p18(); else if (p == "P19") p19(); else p20(); });
}
