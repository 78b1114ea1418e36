// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_opts.hpp"
namespace sim
{
void register_opts()
{
    add_ops<simo::FileLevel>("opts.proto", true, false);
    add_ops<simo::MsgLevel>("opts.proto", true, false);
}
}
