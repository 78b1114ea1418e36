// generated by tools/gen_tables.py
#include "ops_impl.hpp"
#include "tables_deep.hpp"
namespace sim
{
void register_deep()
{
    add_ops<simd::api::v2::Outer::Inner::Inner2>("deep.proto", true, false);
    add_ops<simd::api::v2::Outer::Inner>("deep.proto", true, false);
    add_ops<simd::api::v2::Outer::Hollow>("deep.proto", true, false);
    add_ops<simd::api::v2::Outer>("deep.proto", true, false);
    add_ops<simd::api::v2::Names>("deep.proto", true, false);
    add_ops<simd::api::v2::Defaults>("deep.proto", true, false);
    add_ops<simd::api::v2::Ping>("deep.proto", true, false);
    add_ops<simd::api::v2::Pong>("deep.proto", true, false);
    add_ops<simd::api::v2::Pang>("deep.proto", true, false);
    add_ops<simd::api::v2::OnlyMap>("deep.proto", true, false);
    add_ops<simd::api::v2::OnlyOneof>("deep.proto", true, false);
    add_ops<simd::api::v2::UsesLater>("deep.proto", true, false);
    add_ops<simd::api::v2::Later::Nested>("deep.proto", true, false);
    add_ops<simd::api::v2::Later>("deep.proto", true, false);
}
}
