/* Common runtime of the verification harnesses: seeded case loop, crash/hang attribution,
 * oracle-failure recording and measured coverage. Knows nothing about the code under test. */
#ifndef VH_HPP
#define VH_HPP

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <exception>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>

namespace vh
{
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    inline uint64_t hash_str(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return mix(h);
    }
    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        for (size_t i = 0; i < n; i++) { h ^= static_cast<const unsigned char*>(p)[i]; h *= 1099511628211ull; }
        return h;
    }

    /* The harness' own generator: independent of the library's. */
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
        using result_type = uint64_t;
        static constexpr uint64_t min() { return 0; }
        static constexpr uint64_t max() { return ~0ull; }
        uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
        uint64_t next() { return (*this)(); }
        /* [0, n) */
        uint64_t below(uint64_t n) { return n ? uint64_t((__uint128_t(next()) * n) >> 64) : 0; }
        /* [a, b] */
        int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a) + 1)); }
        double unit() { return double(next() >> 11) * 0x1p-53; }
        double real(double a, double b) { return a + (b - a) * unit(); }
        bool chance(double p) { return unit() < p; }
        template<typename C> auto& pick(C& c) { return c[below(c.size())]; }
        template<typename C> const auto& pick(const C& c) { return c[below(c.size())]; }
        template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        template<typename V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
    };

    struct CaseFail {};   // thrown to leave a case early after a recorded failure

    struct Failure { std::string kind, key, msg; uint64_t index; };

    struct State
    {
        std::string prop, tier = "quick", out, only_kind;
        uint64_t seed = 1, shard = 0, nshards = 1, divide = 1;
        int64_t only_index = -1;
        std::string resume_kind; int64_t resume_index = -1; bool resumed = true;
        double budget_s = 0, case_limit_s = 60;
        int marker_fd = -1; FILE* sigs_file = nullptr;

        std::mutex mtx;
        std::vector<Failure> failures;
        std::map<std::string, uint64_t> failure_counts;
        std::map<std::string, uint64_t> stats;
        std::map<std::string, double> maxima;
        std::map<std::string, std::vector<std::string>> samples;
        std::map<std::string, uint64_t> kind_evals, kind_nontrivial;
        std::unordered_set<uint64_t> sigs;
        uint64_t evals = 0; double last_dump = 0;
        std::vector<std::string> truncated;

        std::string cur_kind; uint64_t cur_index = 0;
        std::atomic<uint64_t> beat{0};
        std::atomic<bool> in_case{false};
        std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    };
    inline State& st() { static State* s = new State; return *s; }

    inline bool thorough() { return st().tier == "thorough"; }
    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - st().start).count(); }

    inline std::string jesc(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o;
    }

    inline void write_marker()
    {
        if (st().marker_fd < 0) return;
        char b[256]; std::memset(b, ' ', sizeof b);
        int n = std::snprintf(b, sizeof b, "%s %llu", st().cur_kind.c_str(), (unsigned long long)st().cur_index);
        b[n] = ' '; b[255] = '\n';
        [[maybe_unused]] auto r = ::pwrite(st().marker_fd, b, sizeof b, 0);
    }

    inline void stat(const std::string& k, uint64_t n = 1) { std::lock_guard l(st().mtx); st().stats[k] += n; }
    inline void maximum(const std::string& k, double v) { std::lock_guard l(st().mtx); auto it = st().maxima.find(k); if (it == st().maxima.end() || it->second < v) st().maxima[k] = v; }

    /* Record an oracle failure. 'key' identifies what failed (stable across seeds). */
    inline void dump(bool done);
    [[gnu::noinline]] inline void fail(const std::string& key, const std::string& msg)
    {
        State& s = st();
        { std::lock_guard l(s.mtx);
        std::string k = s.cur_kind + ":" + key;
        if (s.failure_counts[k]++ < 3)
        {
            s.failures.push_back({ s.cur_kind, key, msg.substr(0, 1500), s.cur_index });
            std::fprintf(stderr, "VHFAIL %s case %llu: %s\n", k.c_str(), (unsigned long long)s.cur_index, msg.substr(0, 600).c_str());
        }
        else return;
        }
        dump(false);
    }

    struct Case
    {
        bool nontrivial = false;
        uint64_t h = 0;
        std::string sample_text;
        void sig(uint64_t v) { h = mix(h ^ v) + 1; }
        void sig(double v) { uint64_t u; std::memcpy(&u, &v, 8); sig(u); }
        void sample(const std::string& s) { if (sample_text.empty()) sample_text = s; }
        template<typename F> void sample_lazy(const std::string&, F f) { if (sample_text.empty()) sample_text = f(); }
    };

    /* Runs `count` cases of one kind (deterministic count per tier). Each case has its own seed,
     * derived from (VERIF_SEED, kind, index), so one case can be replayed alone. */
    template<typename F>
    void cases(const std::string& kind, uint64_t quick, uint64_t thor, F&& f)
    {
        State& s = st();
        if (!s.only_kind.empty() && s.only_kind != kind) return;
        const uint64_t full = thorough() ? thor : quick, count = (full + s.divide - 1) / s.divide;
        for (uint64_t i = s.shard; i < count; i += s.nshards)
        {
            if (s.only_index >= 0 && uint64_t(s.only_index) != i) continue;
            if (!s.resumed)
            {
                if (kind == s.resume_kind && int64_t(i) >= s.resume_index) { s.resumed = true; if (int64_t(i) == s.resume_index) continue; }
                else continue;
            }
            if (s.budget_s > 0 && elapsed() > s.budget_s)
            {
                std::lock_guard l(s.mtx);
                s.truncated.push_back(kind + " at " + std::to_string(i) + "/" + std::to_string(count));
                return;
            }
            { std::lock_guard l(s.mtx); s.cur_kind = kind; s.cur_index = i; }
            write_marker();
            s.beat++; s.in_case = true;
            Rng rng(mix(s.seed) ^ hash_str(kind) ^ mix(i * 2654435761ull + 17));
            Case c; c.sig(hash_str(kind));
            try { f(rng, c); }
            catch (const CaseFail&) {}
            catch (const std::exception& e) { fail("unexpected-exception", std::string("unexpected exception: ") + e.what()); }
            catch (...) { fail("unexpected-exception", "unexpected exception of unknown type"); }
            s.in_case = false;
            if (s.sigs_file) { std::fprintf(s.sigs_file, "%s %llu %llx\n", kind.c_str(), (unsigned long long)i, (unsigned long long)c.h); std::fflush(s.sigs_file); }
            bool need_dump = false;
            { std::lock_guard l(s.mtx);
            s.evals++; s.kind_evals[kind]++;
            if (c.nontrivial && s.sigs.insert(c.h).second) s.kind_nontrivial[kind]++;
            if (!c.sample_text.empty() && s.samples[kind].size() < 2) s.samples[kind].push_back("case " + std::to_string(i) + ": " + c.sample_text.substr(0, 700));
            if (elapsed() - s.last_dump > 2.0) { s.last_dump = elapsed(); need_dump = true; }
            } if (need_dump) dump(false);
        }
    }

    inline void dump(bool done)
    {
        State& s = st(); std::lock_guard l(s.mtx);
        if (s.out.empty()) return;
        std::string tmp = s.out + ".tmp";
        FILE* f = std::fopen(tmp.c_str(), "w"); if (!f) return;
        std::fprintf(f, "{\"done\": %s, \"evaluations\": %llu, \"nontrivial\": %llu, \"wall\": %.3f,\n", done ? "true" : "false", (unsigned long long)s.evals, (unsigned long long)s.sigs.size(), elapsed());
        std::fprintf(f, "\"failures\": [");
        for (size_t i = 0; i < s.failures.size(); i++)
            std::fprintf(f, "%s{\"kind\": \"%s\", \"key\": \"%s\", \"index\": %llu, \"msg\": \"%s\"}", i ? ",\n" : "", jesc(s.failures[i].kind).c_str(), jesc(s.failures[i].key).c_str(), (unsigned long long)s.failures[i].index, jesc(s.failures[i].msg).c_str());
        auto mapu = [&](const char* name, const std::map<std::string, uint64_t>& m)
        {
            std::fprintf(f, ",\n\"%s\": {", name);
            bool first = true; for (auto& [k, v] : m) { std::fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)v); first = false; }
            std::fprintf(f, "}");
        };
        std::fprintf(f, "]");
        mapu("failure_counts", s.failure_counts); mapu("stats", s.stats); mapu("kind_evaluations", s.kind_evals); mapu("kind_nontrivial", s.kind_nontrivial);
        std::fprintf(f, ",\n\"maxima\": {"); { bool first = true; for (auto& [k, v] : s.maxima) { std::fprintf(f, "%s\"%s\": %.9g", first ? "" : ", ", jesc(k).c_str(), std::isfinite(v) ? v : -1.0); first = false; } } std::fprintf(f, "}");
        std::fprintf(f, ",\n\"truncated\": ["); for (size_t i = 0; i < s.truncated.size(); i++) std::fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(s.truncated[i]).c_str()); std::fprintf(f, "]");
        std::fprintf(f, ",\n\"samples\": {"); { bool first = true; for (auto& [k, v] : s.samples) { std::fprintf(f, "%s\"%s\": [", first ? "" : ",\n ", jesc(k).c_str()); for (size_t i = 0; i < v.size(); i++) std::fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(v[i]).c_str()); std::fprintf(f, "]"); first = false; } } std::fprintf(f, "}}\n");
        std::fclose(f); std::rename(tmp.c_str(), s.out.c_str());
    }

    inline int run(int argc, char** argv, const std::function<void(const std::string&)>& body)
    {
        State& s = st();
        for (int i = 1; i + 1 < argc; i += 2)
        {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--prop") s.prop = v; else if (a == "--tier") s.tier = v; else if (a == "--seed") s.seed = std::strtoull(v.c_str(), 0, 10);
            else if (a == "--out") s.out = v; else if (a == "--shard") { s.shard = std::strtoull(v.c_str(), 0, 10); }
            else if (a == "--divide") s.divide = std::max<uint64_t>(1, std::strtoull(v.c_str(), 0, 10));
            else if (a == "--nshards") s.nshards = std::strtoull(v.c_str(), 0, 10);
            else if (a == "--marker") s.marker_fd = ::open(v.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
            else if (a == "--sigs") s.sigs_file = std::fopen(v.c_str(), "a");
            else if (a == "--only") { auto p = v.rfind('@'); s.only_kind = v.substr(0, p); if (p != std::string::npos) s.only_index = std::atoll(v.c_str() + p + 1); s.shard = 0; s.nshards = 1; }
            else if (a == "--resume") { auto p = v.rfind('@'); s.resume_kind = v.substr(0, p); s.resume_index = std::atoll(v.c_str() + p + 1); s.resumed = false; }
            else if (a == "--budget") s.budget_s = std::atof(v.c_str());
            else if (a == "--case-limit") s.case_limit_s = std::atof(v.c_str());
            else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
        }
        std::thread([]{
            State& s = st(); uint64_t last = 0; double since = 0;
            for (;;) {
                ::usleep(250000);
                uint64_t b = s.beat.load();
                if (!s.in_case || b != last) { last = b; since = 0; continue; }
                since += 0.25;
                if (since > s.case_limit_s) {
                    const char m[] = "VHHANG case exceeded its time limit\n"; [[maybe_unused]] auto r = ::write(2, m, sizeof m - 1);
                    ::_exit(97);
                }
            }
        }).detach();
        body(s.prop);
        if (!s.resumed) { std::fprintf(stderr, "resume point not found\n"); return 3; }
        dump(true);
        std::fflush(nullptr);
        return 0;
    }

    template<typename... Ts> std::string str(const Ts&... ts) { std::ostringstream o; o.precision(17); (o << ... << ts); return o.str(); }
    template<typename V> std::string vec(const V& v, size_t maxn = 40)
    {
        std::ostringstream o; o.precision(17); o << "["; size_t i = 0;
        for (const auto& x : v) { if (i) o << ","; if (i >= maxn) { o << "..."; break; } o << +x; i++; }
        o << "]"; return o.str();
    }
}

/* Record a failure and leave the case. */
#define VH_REQUIRE(cond, key, ...) do { if (!(cond)) { ::vh::fail(key, ::vh::str(__VA_ARGS__)); throw ::vh::CaseFail{}; } } while (0)
/* Record a failure and continue (safe in noexcept code/callbacks). */
#define VH_CHECK(cond, key, ...) do { if (!(cond)) { ::vh::fail(key, ::vh::str(__VA_ARGS__)); } } while (0)

#endif
