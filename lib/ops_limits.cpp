// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_limits.hpp"
namespace sim
{
void register_limits()
{
    add_ops<siml::Lim>("limits.proto", true, false);
}
}
