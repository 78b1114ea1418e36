// Basic-block hook of the instrumented code under test (clang -fsanitize-coverage=trace-pc-guard).
#include "../sim/engine.hpp"
namespace sim
{
void (*g_edge_hook)() = nullptr; // preemption point (P12)
}
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t *)
{
    if (++sim::g_steps > sim::g_step_limit)
    {
        sim::g_step_limit = ~0ull;
        sim::die_violation("hang", "the call does not finish within its step budget");
    }
    if (sim::g_edge_hook) sim::g_edge_hook();
}
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    static uint32_t n = 0;
    for (auto *x = start; x < stop; x++)
        if (!*x) *x = ++n;
}
