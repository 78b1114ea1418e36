// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "ddep.pb.h"
namespace sim
{
template <> struct EnumVals<simd::base::Level>
{
    static constexpr simd::base::Level values[] = {simd::base::Level::LEVEL_LOW, simd::base::Level::LEVEL_MID, simd::base::Level::LEVEL_HIGH, simd::base::Level::LEVEL_NEG};
};
template <> struct EnumVals<simd::base::Shared::Kind>
{
    static constexpr simd::base::Shared::Kind values[] = {simd::base::Shared::Kind::KIND_A, simd::base::Shared::Kind::KIND_B, simd::base::Shared::Kind::KIND_C};
};
template <> struct Fields<simd::base::Shared::Part>
{
    static constexpr const char *name = "simd.base.Shared.Part";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("first_value", m.first_value, 0u, 0u, false);
        v.field("part_name", m.part_name, 0u, 0u, false);
        v.field("kind_of_part", m.kind_of_part, 0u, 0u, false);
        v.field("level_list", m.level_list, 0u, 0u, false);
    }
};
template <> struct Fields<simd::base::Shared>
{
    static constexpr const char *name = "simd.base.Shared";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("main_part", m.main_part, 0u, 0u, false);
        v.field("other_parts", m.other_parts, 0u, 0u, false);
        v.field("kind", m.kind, 0u, 0u, false);
        v.field("part_by_name", m.part_by_name, 0u, 0u, false);
    }
};
} // namespace sim
