// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_emu.hpp"
namespace sim
{
void register_emu()
{
    add_ops<simemu::Num>("emu.proto", true, false);
    add_ops<simemu::Small>("emu.proto", true, true);
}
}
