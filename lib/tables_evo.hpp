// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "evo.pb.h"
namespace sim
{
template <> struct EnumVals<sime::Lvl>
{
    static constexpr sime::Lvl values[] = {sime::Lvl::L0, sime::Lvl::L1, sime::Lvl::L2};
};
template <> struct Fields<sime::InnerNew>
{
    static constexpr const char *name = "sime.InnerNew";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("keep", m.keep, 0u, 0u, false);
        v.field("text", m.text, 0u, 0u, false);
        v.field("nums", m.nums, 0u, 0u, false);
        v.field("x", m.x, 0u, 0u, false);
        v.field("extra", m.extra, 0u, 0u, false);
        v.field("m", m.m, 0u, 0u, false);
        v.field("deep", m.deep, 0u, 0u, false);
    }
};
template <> struct Fields<sime::InnerOld>
{
    static constexpr const char *name = "sime.InnerOld";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("keep", m.keep, 0u, 0u, false);
        v.field("nums", m.nums, 0u, 0u, false);
        v.field("deep", m.deep, 0u, 0u, false);
    }
};
template <> struct Fields<sime::New>
{
    static constexpr const char *name = "sime.New";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("a", m.a, 0u, 0u, false);
        v.field("b", m.b, 0u, 0u, false);
        v.field("in", m.in, 0u, 0u, false);
        v.field("tags", m.tags, 0u, 0u, false);
        v.field("c", m.c, 0u, 0u, false);
        v.field("d", m.d, 0u, 0u, false);
        v.field("e", m.e, 0u, 0u, false);
        v.field("f", m.f, 0u, 0u, false);
        v.field("g", m.g, 0u, 0u, false);
        v.field("h", m.h, 0u, 0u, false);
        v.field("k", m.k, 0u, 0u, false);
        v.field("m", m.m, 0u, 0u, false);
        v.field("o", m.o, 0u, 0u, false);
        v.field("lvl", m.lvl, 0u, 0u, false);
        v.field("z", m.z, 0u, 0u, false);
        v.field("last", m.last, 0u, 0u, false);
        v.field("s64", m.s64, 0u, 0u, false);
        v.field("mm", m.mm, 0u, 0u, false);
    }
};
template <> struct Fields<sime::Old>
{
    static constexpr const char *name = "sime.Old";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("b", m.b, 0u, 0u, false);
        v.field("in", m.in, 0u, 0u, false);
        v.field("c", m.c, 0u, 0u, false);
        v.field("h", m.h, 0u, 0u, false);
        v.field("k", m.k, 0u, 0u, false);
        v.field("lvl", m.lvl, 0u, 0u, false);
        v.field("z", m.z, 0u, 0u, false);
    }
};
template <> struct Fields<sime::Older>
{
    static constexpr const char *name = "sime.Older";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("z", m.z, 0u, 0u, false);
        v.field("e", m.e, 0u, 0u, false);
        v.field("a", m.a, 0u, 0u, false);
    }
};
template <> struct Fields<sime::Oldest>
{
    static constexpr const char *name = "sime.Oldest";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
    }
};
} // namespace sim
