// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_lim2.hpp"
namespace sim
{
void register_lim2()
{
    add_ops<siml2::Lim2>("lim2.proto", false, false);
}
}
