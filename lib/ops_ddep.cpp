// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_ddep.hpp"
namespace sim
{
void register_ddep()
{
    add_ops<simd::base::Shared::Part>("ddep.proto", true, false);
    add_ops<simd::base::Shared>("ddep.proto", true, false);
}
}
