// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "tables_ddep.hpp"
#include "deep.pb.h"
namespace sim
{
template <> struct EnumVals<simd::api::v2::State>
{
    static constexpr simd::api::v2::State values[] = {simd::api::v2::State::STATE_OFF, simd::api::v2::State::STATE_IDLE, simd::api::v2::State::STATE_ON};
};
template <> struct EnumVals<simd::api::v2::Outer::State>
{
    static constexpr simd::api::v2::Outer::State values[] = {simd::api::v2::Outer::State::S_NEW, simd::api::v2::Outer::State::S_OLD, simd::api::v2::Outer::State::S_LAST};
};
template <> struct EnumVals<simd::api::v2::Outer::Inner::State>
{
    static constexpr simd::api::v2::Outer::Inner::State values[] = {simd::api::v2::Outer::Inner::State::IS_A, simd::api::v2::Outer::Inner::State::IS_B};
};
template <> struct Fields<simd::api::v2::Outer::Inner::Inner2>
{
    static constexpr const char *name = "simd.api.v2.Outer.Inner.Inner2";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("inner_state", m.inner_state, 0u, 0u, false);
        v.field("level", m.level, 0u, 0u, false);
        v.field("more_of_it", m.more_of_it, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Outer::Inner>
{
    static constexpr const char *name = "simd.api.v2.Outer.Inner";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("state_value", m.state_value, 0u, 0u, false);
        v.field("inner_2_list", m.inner_2_list, 0u, 0u, false);
        v.field("oneInner", m.oneInner, 0u, 0u, false);
        v.field("inner_by_id", m.inner_by_id, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Outer::Hollow>
{
    static constexpr const char *name = "simd.api.v2.Outer.Hollow";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
    }
};
template <> struct Fields<simd::api::v2::Outer>
{
    static constexpr const char *name = "simd.api.v2.Outer";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("state", m.state, 0u, 0u, false);
        v.field("inner_message", m.inner_message, 0u, 0u, false);
        v.field("inner_list", m.inner_list, 0u, 0u, false);
        v.field("hollow", m.hollow, 0u, 0u, false);
        v.field("shared", m.shared, 0u, 0u, false);
        v.field("shared_part", m.shared_part, 0u, 0u, false);
        v.field("shared_kind", m.shared_kind, 0u, 0u, false);
        v.field("states", m.states, 0u, 0u, false);
        v.field("kind_map", m.kind_map, 0u, 0u, false);
    }
};
template <> struct EnumVals<simd::api::v2::Names::union_>
{
    static constexpr simd::api::v2::Names::union_ values[] = {simd::api::v2::Names::union_::private_, simd::api::v2::Names::union_::default_, simd::api::v2::Names::union_::float_, simd::api::v2::Names::union_::NONE_Az, simd::api::v2::Names::union_::NONE_BY};
};
template <> struct Fields<simd::api::v2::Names>
{
    static constexpr const char *name = "simd.api.v2.Names";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("snake_case_name", m.snake_case_name, 0u, 0u, false);
        v.field("camelCaseName", m.camelCaseName, 0u, 0u, false);
        v.field("with_2_digits3", m.with_2_digits3, 0u, 0u, false);
        v.field("UPPER_CASE", m.UPPER_CASE, 0u, 0u, false);
        v.field("a", m.a, 0u, 0u, false);
        v.field("renamed", m.renamed, 0u, 0u, false);
        v.field("repeated_values", m.repeated_values, 0u, 0u, false);
        v.field("a_very_long_field_name_that_is_longer_than_anything_else_in_here", m.a_very_long_field_name_that_is_longer_than_anything_else_in_here, 0u, 0u, false);
        v.field("class_", m.class_, 0u, 0u, false);
        v.field("delete_", m.delete_, 0u, 0u, false);
        v.field("namespace_", m.namespace_, 0u, 0u, false);
        v.field("b1", m.b1, 0u, 0u, false);
        v.field("bz", m.bz, 0u, 0u, false);
        v.field("cY", m.cY, 0u, 0u, false);
        v.field("map_of_things", m.map_of_things, 0u, 0u, false);
        v.field("template_", m.template_, 0u, 0u, false);
        v.field("the_choice", m.the_choice, 0u, 0u, false);
        v.field("self_reference", m.self_reference, 0u, 0u, false);
        v.field("kind_of_word", m.kind_of_word, 0u, 0u, false);
        v.field("words", m.words, 0u, 0u, false);
        v.field("switch_", m.switch_, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Defaults>
{
    static constexpr const char *name = "simd.api.v2.Defaults";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("i32", m.i32, 0u, 0u, false);
        v.field("u64", m.u64, 0u, 0u, false);
        v.field("flag", m.flag, 0u, 0u, false);
        v.field("dbl", m.dbl, 0u, 0u, false);
        v.field("flt", m.flt, 0u, 0u, false);
        v.field("str", m.str, 0u, 0u, false);
        v.field("state", m.state, 0u, 0u, false);
        v.field("s64", m.s64, 0u, 0u, false);
        v.field("f32", m.f32, 0u, 0u, false);
        v.bits("bits", 4, [&] { return m.bits; }, [&](auto z) { const_cast<simd::api::v2::Defaults &>(m).bits = z; });
        v.field("level", m.level, 0u, 0u, false);
        v.field("after", m.after, 0u, 0u, false);
        v.field("sf64", m.sf64, 0u, 0u, false);
        v.field("f64", m.f64, 0u, 0u, false);
        v.field("u32", m.u32, 0u, 0u, false);
        v.field("word", m.word, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Ping>
{
    static constexpr const char *name = "simd.api.v2.Ping";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pong", m.pong, 0u, 0u, false);
        v.field("note", m.note, 0u, 0u, false);
        v.field("pongs", m.pongs, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Pong>
{
    static constexpr const char *name = "simd.api.v2.Pong";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("ping", m.ping, 0u, 0u, false);
        v.field("pang", m.pang, 0u, 0u, false);
        v.field("count", m.count, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Pang>
{
    static constexpr const char *name = "simd.api.v2.Pang";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pings", m.pings, 0u, 0u, false);
        v.field("back", m.back, 0u, 0u, false);
        v.field("what", m.what, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::OnlyMap>
{
    static constexpr const char *name = "simd.api.v2.OnlyMap";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("values", m.values, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::OnlyOneof>
{
    static constexpr const char *name = "simd.api.v2.OnlyOneof";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("only", m.only, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::UsesLater>
{
    static constexpr const char *name = "simd.api.v2.UsesLater";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("later", m.later, 0u, 0u, false);
        v.field("nested", m.nested, 0u, 0u, false);
        v.field("by_flag", m.by_flag, 0u, 0u, false);
        v.field("any_state", m.any_state, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Later::Nested>
{
    static constexpr const char *name = "simd.api.v2.Later.Nested";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("id", m.id, 0u, 0u, false);
        v.field("id_text", m.id_text, 0u, 0u, false);
    }
};
template <> struct Fields<simd::api::v2::Later>
{
    static constexpr const char *name = "simd.api.v2.Later";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("nested", m.nested, 0u, 0u, false);
        v.field("text", m.text, 0u, 0u, false);
        v.field("all", m.all, 0u, 0u, false);
    }
};
} // namespace sim
