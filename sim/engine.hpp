// Deterministic simulation engine: choice sequences, event log, statistics, violation plumbing.
// One run = one pure function of (choice sequence, code under test).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace sim
{
struct Prng
{
    uint64_t s;
    explicit Prng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : uint32_t((uint64_t(uint32_t(next() >> 32)) * n) >> 32); }
};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

// thrown by world code (never from inside a library call)
struct Violation
{
    std::string cls, msg;
};
// thrown when the run cannot be judged (e.g. workload outside the property's domain)
struct Discard
{
};

struct Run
{
    // --- choices
    bool replay = false;
    std::vector<uint32_t> in; // replayed choices
    size_t in_pos = 0;
    Prng rng{1};
    std::vector<uint32_t> rec;
    uint32_t choose(uint32_t n); // uniform in [0,n); 0 is always the simplest / least faulty alternative
    bool coin(uint32_t num, uint32_t den) { return choose(den) >= den - num; } // true with num/den; 0 -> false
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
    uint64_t bits64() { uint64_t h = choose(0xffffffffu); return (h << 32) | choose(0xffffffffu); }
    // --- log
    bool verbose = false;
    std::vector<std::string> log;
    uint64_t trace_hash = 0;
    uint64_t events     = 0;
    void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void evh(uint64_t h) { trace_hash = mix(trace_hash, h); ++events; } // event without text
    // --- results
    std::string sample; // one-line description of the case
    bool nontrivial = false;
    uint64_t signature = 0; // state/interleaving signature for distinct counting
    uint64_t ticks     = 0; // simulated time (logical)
    void sig(uint64_t h) { signature = mix(signature, h); }
};
extern Run *R; // current run

[[noreturn]] void fail(const std::string &cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// statistics
void count(const char *name, uint64_t n = 1);           // fault kinds / probes; name must be a literal
bool warming();
struct World
{
    const char *id;
    std::function<void(Run &)> fn;
    uint64_t quick_runs, thorough_runs;
    double quick_s, thorough_s; // wall caps
    const char *rule;
    std::vector<std::string> real, stub;
    std::vector<std::string> assumptions;
    const char *distinct_measure;
    const char *time_unit;
    uint32_t batch = 200; // runs per process
};
void register_world(World w);
struct Reg
{
    explicit Reg(World w) { register_world(std::move(w)); }
};

// step budget (basic blocks of instrumented code)
extern uint64_t g_steps, g_step_limit;
// set by worlds: text put in the crash class when the process dies during this phase
void phase(const char *p);
// terminate the process reporting a violation that cannot be reported by exception
[[noreturn]] void die_violation(const char *cls, const char *msg);

std::string hex(std::string_view s, size_t max = 400);
std::string quote(std::string_view s, size_t max = 400);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int engine_main(int argc, char **argv);
} // namespace sim
