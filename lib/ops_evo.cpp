// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_evo.hpp"
namespace sim
{
void register_evo()
{
    add_ops<sime::InnerNew>("evo.proto", true, false);
    add_ops<sime::InnerOld>("evo.proto", true, false);
    add_ops<sime::New>("evo.proto", true, false);
    add_ops<sime::Old>("evo.proto", true, false);
    add_ops<sime::Older>("evo.proto", true, false);
    add_ops<sime::Oldest>("evo.proto", true, false);
}
}
