// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "modern.pb.h"
namespace sim
{
template <> struct EnumVals<simt3::Mood>
{
    static constexpr simt3::Mood values[] = {simt3::Mood::MOOD_NONE, simt3::Mood::MOOD_GOOD, simt3::Mood::MOOD_BAD, simt3::Mood::MOOD_UGLY};
};
template <> struct Fields<simt3::Point>
{
    static constexpr const char *name = "simt3.Point";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("x", m.x, 0u, 0u, true);
        v.field("y", m.y, 0u, 0u, true);
        v.field("label", m.label, 0u, 0u, true);
    }
};
template <> struct Fields<simt3::Impl>
{
    static constexpr const char *name = "simt3.Impl";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("b", m.b, 0u, 0u, true);
        v.field("i32", m.i32, 0u, 0u, true);
        v.field("u64", m.u64, 0u, 0u, true);
        v.field("dbl", m.dbl, 0u, 0u, true);
        v.field("flt", m.flt, 0u, 0u, true);
        v.field("str", m.str, 0u, 0u, true);
        v.field("byt", m.byt, 0u, 0u, true);
        v.field("mood", m.mood, 0u, 0u, true);
        v.field("ostr", m.ostr, 0u, 0u, false);
        v.field("oi64", m.oi64, 0u, 0u, false);
        v.field("omood", m.omood, 0u, 0u, false);
        v.field("obyt", m.obyt, 0u, 0u, false);
        v.field("ri", m.ri, 0u, 0u, false);
        v.field("rm", m.rm, 0u, 0u, false);
        v.field("rs", m.rs, 0u, 0u, false);
        v.field("pt", m.pt, 0u, 0u, true);
        v.field("rp", m.rp, 0u, 0u, false);
        v.field("x32", m.x32, 0u, 0u, true);
        v.field("x64", m.x64, 0u, 0u, true);
    }
};
template <> struct Fields<simt3::Choice>
{
    static constexpr const char *name = "simt3.Choice";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("before", m.before, 0u, 0u, true);
        v.field("one", m.one, 0u, 0u, false);
        v.field("after", m.after, 0u, 0u, true);
    }
};
template <> struct Fields<simt3::Choice2>
{
    static constexpr const char *name = "simt3.Choice2";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("first", m.first, 0u, 0u, false);
        v.field("second", m.second, 0u, 0u, false);
        v.field("list", m.list, 0u, 0u, false);
        v.field("after", m.after, 0u, 0u, true);
    }
};
template <> struct Fields<simt3::Maps>
{
    static constexpr const char *name = "simt3.Maps";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("ss", m.ss, 0u, 0u, true);
        v.field("ii", m.ii, 0u, 0u, true);
        v.field("si", m.si, 0u, 0u, true);
        v.field("us", m.us, 0u, 0u, true);
        v.field("bs", m.bs, 0u, 0u, true);
        v.field("sp", m.sp, 0u, 0u, true);
        v.field("sm", m.sm, 0u, 0u, true);
        v.field("fb", m.fb, 0u, 0u, true);
        v.field("id", m.id, 0u, 0u, true);
        v.field("ub", m.ub, 0u, 0u, true);
        v.field("st", m.st, 0u, 0u, true);
        v.field("after", m.after, 0u, 0u, true);
    }
};
template <> struct Fields<simt3::Tree>
{
    static constexpr const char *name = "simt3.Tree";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("left", m.left, 0u, 0u, false);
        v.field("right", m.right, 0u, 0u, false);
        v.field("kids", m.kids, 0u, 0u, false);
        v.field("name", m.name, 0u, 0u, true);
        v.field("weight", m.weight, 0u, 0u, true);
        v.field("payload", m.payload, 0u, 0u, false);
    }
};
template <> struct Fields<simt3::Big>
{
    static constexpr const char *name = "simt3.Big";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("impl", m.impl, 0u, 0u, true);
        v.field("impls", m.impls, 0u, 0u, false);
        v.field("maps", m.maps, 0u, 0u, true);
        v.field("choice", m.choice, 0u, 0u, true);
        v.field("tree", m.tree, 0u, 0u, true);
        v.field("blob", m.blob, 0u, 0u, true);
        v.field("text", m.text, 0u, 0u, true);
    }
};
} // namespace sim
