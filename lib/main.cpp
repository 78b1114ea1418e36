#include "ops.hpp"
namespace sim
{
__attribute__((weak)) void register_scal(); // absent when this schema family does not build
__attribute__((weak)) void register_modern(); // absent when this schema family does not build
__attribute__((weak)) void register_fixed(); // absent when this schema family does not build
__attribute__((weak)) void register_limits(); // absent when this schema family does not build
__attribute__((weak)) void register_lim2(); // absent when this schema family does not build
__attribute__((weak)) void register_evo(); // absent when this schema family does not build
__attribute__((weak)) void register_opts(); // absent when this schema family does not build
__attribute__((weak)) void register_deep(); // absent when this schema family does not build
__attribute__((weak)) void register_ddep(); // absent when this schema family does not build
__attribute__((weak)) void register_lim3(); // absent when this schema family does not build
__attribute__((weak)) void register_emu(); // absent when this schema family does not build
} // namespace sim
int main(int argc, char **argv)
{
    if (sim::register_scal) sim::register_scal();
    if (sim::register_modern) sim::register_modern();
    if (sim::register_fixed) sim::register_fixed();
    if (sim::register_limits) sim::register_limits();
    if (sim::register_lim2) sim::register_lim2();
    if (sim::register_evo) sim::register_evo();
    if (sim::register_opts) sim::register_opts();
    if (sim::register_deep) sim::register_deep();
    if (sim::register_ddep) sim::register_ddep();
    if (sim::register_lim3) sim::register_lim3();
    if (sim::register_emu) sim::register_emu();
    return sim::engine_main(argc, argv);
}
