// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_lim3.hpp"
namespace sim
{
void register_lim3()
{
    add_ops<siml3::FileLim>("lim3.proto", true, false);
    add_ops<siml3::MsgLim>("lim3.proto", true, false);
    add_ops<siml3::SpbMsg>("lim3.proto", true, false);
    add_ops<siml3::OneLim>("lim3.proto", true, false);
}
}
