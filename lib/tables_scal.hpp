// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "scal.pb.h"
namespace sim
{
template <> struct EnumVals<simt::Color>
{
    static constexpr simt::Color values[] = {simt::Color::RED, simt::Color::GREEN, simt::Color::BLUE, simt::Color::FAR, simt::Color::NEG, simt::Color::MINUS, simt::Color::HUNDRED};
};
template <> struct EnumVals<simt::Tiny>
{
    static constexpr simt::Tiny values[] = {simt::Tiny::T_ZERO, simt::Tiny::T_MAX, simt::Tiny::T_MIN, simt::Tiny::T_SOME};
};
template <> struct Fields<simt::Opt>
{
    static constexpr const char *name = "simt.Opt";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("b", m.b, 0u, 0u, false);
        v.field("i32", m.i32, 0u, 0u, false);
        v.field("s32", m.s32, 0u, 0u, false);
        v.field("u32", m.u32, 0u, 0u, false);
        v.field("f32", m.f32, 0u, 0u, false);
        v.field("sf32", m.sf32, 0u, 0u, false);
        v.field("i64", m.i64, 0u, 0u, false);
        v.field("s64", m.s64, 0u, 0u, false);
        v.field("u64", m.u64, 0u, 0u, false);
        v.field("f64", m.f64, 0u, 0u, false);
        v.field("sf64", m.sf64, 0u, 0u, false);
        v.field("flt", m.flt, 0u, 0u, false);
        v.field("dbl", m.dbl, 0u, 0u, false);
        v.field("str", m.str, 0u, 0u, false);
        v.field("byt", m.byt, 0u, 0u, false);
        v.field("color", m.color, 0u, 0u, false);
        v.field("tiny", m.tiny, 0u, 0u, false);
        v.field("self", m.self, 0u, 0u, false);
        v.field("req", m.req, 0u, 0u, false);
    }
};
template <> struct Fields<simt::Req>
{
    static constexpr const char *name = "simt.Req";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("b", m.b, 0u, 0u, false);
        v.field("i32", m.i32, 0u, 0u, false);
        v.field("s32", m.s32, 0u, 0u, false);
        v.field("u32", m.u32, 0u, 0u, false);
        v.field("f32", m.f32, 0u, 0u, false);
        v.field("sf32", m.sf32, 0u, 0u, false);
        v.field("i64", m.i64, 0u, 0u, false);
        v.field("s64", m.s64, 0u, 0u, false);
        v.field("u64", m.u64, 0u, 0u, false);
        v.field("f64", m.f64, 0u, 0u, false);
        v.field("sf64", m.sf64, 0u, 0u, false);
        v.field("flt", m.flt, 0u, 0u, false);
        v.field("dbl", m.dbl, 0u, 0u, false);
        v.field("str", m.str, 0u, 0u, false);
        v.field("byt", m.byt, 0u, 0u, false);
        v.field("color", m.color, 0u, 0u, false);
        v.field("tiny", m.tiny, 0u, 0u, false);
    }
};
template <> struct Fields<simt::Narrow>
{
    static constexpr const char *name = "simt.Narrow";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("i8", m.i8, 0u, 0u, false);
        v.field("u8", m.u8, 0u, 0u, false);
        v.field("s16", m.s16, 0u, 0u, false);
        v.field("u16", m.u16, 0u, 0u, false);
        v.field("i16", m.i16, 0u, 0u, false);
        v.field("fu8", m.fu8, 0u, 0u, false);
        v.field("sf16", m.sf16, 0u, 0u, false);
        v.field("s8", m.s8, 0u, 0u, false);
        v.field("ru8", m.ru8, 0u, 0u, false);
        v.bits("b3", 3, [&] { return m.b3; }, [&](auto z) { const_cast<simt::Narrow &>(m).b3 = z; });
        v.bits("b5", 5, [&] { return m.b5; }, [&](auto z) { const_cast<simt::Narrow &>(m).b5 = z; });
        v.bits("b9", 9, [&] { return m.b9; }, [&](auto z) { const_cast<simt::Narrow &>(m).b9 = z; });
        v.bits("b1", 1, [&] { return m.b1; }, [&](auto z) { const_cast<simt::Narrow &>(m).b1 = z; });
        v.bits("b40", 40, [&] { return m.b40; }, [&](auto z) { const_cast<simt::Narrow &>(m).b40 = z; });
        v.bits("b33", 33, [&] { return m.b33; }, [&](auto z) { const_cast<simt::Narrow &>(m).b33 = z; });
        v.bits("b17", 17, [&] { return m.b17; }, [&](auto z) { const_cast<simt::Narrow &>(m).b17 = z; });
    }
};
template <> struct Fields<simt::Bits>
{
    static constexpr const char *name = "simt.Bits";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("flag", m.flag, 0u, 0u, false);
        v.field("d", m.d, 0u, 0u, false);
        v.field("tiny", m.tiny, 0u, 0u, false);
        v.field("color", m.color, 0u, 0u, false);
        v.field("e", m.e, 0u, 0u, false);
        v.bits("b3", 3, [&] { return m.b3; }, [&](auto z) { const_cast<simt::Bits &>(m).b3 = z; });
        v.bits("b5", 5, [&] { return m.b5; }, [&](auto z) { const_cast<simt::Bits &>(m).b5 = z; });
        v.bits("b9", 9, [&] { return m.b9; }, [&](auto z) { const_cast<simt::Bits &>(m).b9 = z; });
        v.bits("b1", 1, [&] { return m.b1; }, [&](auto z) { const_cast<simt::Bits &>(m).b1 = z; });
        v.bits("b40", 40, [&] { return m.b40; }, [&](auto z) { const_cast<simt::Bits &>(m).b40 = z; });
        v.bits("b33", 33, [&] { return m.b33; }, [&](auto z) { const_cast<simt::Bits &>(m).b33 = z; });
        v.bits("b17", 17, [&] { return m.b17; }, [&](auto z) { const_cast<simt::Bits &>(m).b17 = z; });
    }
};
template <> struct Fields<simt::Rep>
{
    static constexpr const char *name = "simt.Rep";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("b", m.b, 0u, 0u, false);
        v.field("i32", m.i32, 0u, 0u, false);
        v.field("s32", m.s32, 0u, 0u, false);
        v.field("u32", m.u32, 0u, 0u, false);
        v.field("f32", m.f32, 0u, 0u, false);
        v.field("sf32", m.sf32, 0u, 0u, false);
        v.field("i64", m.i64, 0u, 0u, false);
        v.field("s64", m.s64, 0u, 0u, false);
        v.field("u64", m.u64, 0u, 0u, false);
        v.field("f64", m.f64, 0u, 0u, false);
        v.field("sf64", m.sf64, 0u, 0u, false);
        v.field("flt", m.flt, 0u, 0u, false);
        v.field("dbl", m.dbl, 0u, 0u, false);
        v.field("str", m.str, 0u, 0u, false);
        v.field("byt", m.byt, 0u, 0u, false);
        v.field("color", m.color, 0u, 0u, false);
        v.field("tiny", m.tiny, 0u, 0u, false);
        v.field("req", m.req, 0u, 0u, false);
        v.field("rep", m.rep, 0u, 0u, false);
    }
};
template <> struct Fields<simt::Pack>
{
    static constexpr const char *name = "simt.Pack";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("b", m.b, 0u, 0u, false);
        v.field("i32", m.i32, 0u, 0u, false);
        v.field("s32", m.s32, 0u, 0u, false);
        v.field("u32", m.u32, 0u, 0u, false);
        v.field("f32", m.f32, 0u, 0u, false);
        v.field("sf32", m.sf32, 0u, 0u, false);
        v.field("i64", m.i64, 0u, 0u, false);
        v.field("s64", m.s64, 0u, 0u, false);
        v.field("u64", m.u64, 0u, 0u, false);
        v.field("f64", m.f64, 0u, 0u, false);
        v.field("sf64", m.sf64, 0u, 0u, false);
        v.field("flt", m.flt, 0u, 0u, false);
        v.field("dbl", m.dbl, 0u, 0u, false);
        v.field("color", m.color, 0u, 0u, false);
        v.field("tiny", m.tiny, 0u, 0u, false);
        v.field("tail", m.tail, 0u, 0u, false);
    }
};
template <> struct Fields<simt::Empty>
{
    static constexpr const char *name = "simt.Empty";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
    }
};
template <> struct Fields<simt::Holder>
{
    static constexpr const char *name = "simt.Holder";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("a", m.a, 0u, 0u, false);
        v.field("b", m.b, 0u, 0u, false);
        v.field("c", m.c, 0u, 0u, false);
        v.field("s", m.s, 0u, 0u, false);
        v.field("leaf", m.leaf, 0u, 0u, false);
        v.field("rleaf", m.rleaf, 0u, 0u, false);
    }
};
template <> struct Fields<simt::Leaf>
{
    static constexpr const char *name = "simt.Leaf";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("s", m.s, 0u, 0u, false);
        v.field("n", m.n, 0u, 0u, false);
    }
};
template <> struct Fields<simt::Text>
{
    static constexpr const char *name = "simt.Text";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("a", m.a, 0u, 0u, false);
        v.field("many", m.many, 0u, 0u, false);
        v.field("blob", m.blob, 0u, 0u, false);
        v.field("blobs", m.blobs, 0u, 0u, false);
        v.field("need", m.need, 0u, 0u, false);
        v.field("inner", m.inner, 0u, 0u, false);
        v.field("json_named", m.json_named, 0u, 0u, false);
        v.field("snake_case_name", m.snake_case_name, 0u, 0u, false);
    }
};
} // namespace sim
