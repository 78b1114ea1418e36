// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_scal.hpp"
namespace sim
{
void register_scal()
{
    add_ops<simt::Opt>("scal.proto", true, false);
    add_ops<simt::Req>("scal.proto", true, false);
    add_ops<simt::Narrow>("scal.proto", true, false);
    add_ops<simt::Bits>("scal.proto", true, true);
    add_ops<simt::Rep>("scal.proto", true, false);
    add_ops<simt::Pack>("scal.proto", true, false);
    add_ops<simt::Empty>("scal.proto", true, true);
    add_ops<simt::Holder>("scal.proto", true, false);
    add_ops<simt::Leaf>("scal.proto", true, false);
    add_ops<simt::Text>("scal.proto", true, false);
}
}
