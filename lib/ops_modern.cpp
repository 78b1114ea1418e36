// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_modern.hpp"
namespace sim
{
void register_modern()
{
    add_ops<simt3::Point>("modern.proto", true, false);
    add_ops<simt3::Impl>("modern.proto", true, false);
    add_ops<simt3::Choice>("modern.proto", true, false);
    add_ops<simt3::Choice2>("modern.proto", true, false);
    add_ops<simt3::Maps>("modern.proto", true, false);
    add_ops<simt3::Tree>("modern.proto", true, false);
    add_ops<simt3::Big>("modern.proto", true, false);
}
}
