// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_fixed.hpp"
namespace sim
{
void register_fixed()
{
    add_ops<simf::Sub>("fixed.proto", true, true);
    add_ops<simf::Fixed>("fixed.proto", true, true);
}
}
