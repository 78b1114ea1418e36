// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "fixed.pb.h"
namespace sim
{
template <> struct EnumVals<simf::Kind>
{
    static constexpr simf::Kind values[] = {simf::Kind::K0, simf::Kind::K1, simf::Kind::K255};
};
template <> struct Fields<simf::Sub>
{
    static constexpr const char *name = "simf.Sub";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("a", m.a, 0u, 0u, true);
        v.field("b", m.b, 0u, 0u, false);
        v.field("tag", m.tag, 0u, 0u, true);
    }
};
template <> struct Fields<simf::Fixed>
{
    static constexpr const char *name = "simf.Fixed";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("str", m.str, 0u, 0u, true);
        v.field("byt", m.byt, 0u, 0u, true);
        v.field("words", m.words, 0u, 0u, false);
        v.field("dbls", m.dbls, 0u, 0u, false);
        v.field("flags", m.flags, 0u, 0u, false);
        v.field("oi", m.oi, 0u, 0u, false);
        v.field("sub", m.sub, 0u, 0u, true);
        v.field("osub", m.osub, 0u, 0u, false);
        v.field("kind", m.kind, 0u, 0u, true);
        v.field("ob", m.ob, 0u, 0u, false);
        v.field("txt", m.txt, 0u, 0u, true);
        v.field("nums", m.nums, 0u, 0u, false);
        v.field("subs", m.subs, 0u, 0u, false);
        v.field("blob", m.blob, 0u, 0u, true);
        v.field("flt", m.flt, 0u, 0u, true);
        v.field("fx", m.fx, 0u, 0u, false);
    }
};
} // namespace sim
