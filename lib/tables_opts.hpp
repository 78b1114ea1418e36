// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "opts.pb.h"
namespace sim
{
template <> struct EnumVals<simo::Mode>
{
    static constexpr simo::Mode values[] = {simo::Mode::MODE_NONE, simo::Mode::MODE_ONE, simo::Mode::MODE_MAX, simo::Mode::MODE_MIN};
};
template <> struct Fields<simo::FileLevel>
{
    static constexpr const char *name = "simo.FileLevel";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("numbers", m.numbers, 0u, 0u, false);
        v.field("words", m.words, 0u, 0u, false);
        v.field("modes", m.modes, 0u, 0u, false);
        v.field("kids", m.kids, 0u, 0u, false);
        v.field("table", m.table, 0u, 0u, true);
        v.field("mode", m.mode, 0u, 0u, false);
        v.field("flags", m.flags, 0u, 0u, false);
        v.field("blobs", m.blobs, 0u, 0u, false);
        v.field("tail", m.tail, 0u, 0u, true);
    }
};
template <> struct Fields<simo::MsgLevel>
{
    static constexpr const char *name = "simo.MsgLevel";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("numbers", m.numbers, 0u, 0u, false);
        v.field("words", m.words, 0u, 0u, false);
        v.field("kids", m.kids, 0u, 0u, false);
        v.field("table", m.table, 0u, 0u, true);
        v.field("plain", m.plain, 0u, 0u, false);
        v.field("triple", m.triple, 0u, 0u, false);
        v.field("flags", m.flags, 0u, 0u, false);
        v.field("tail", m.tail, 0u, 0u, true);
        v.field("pick", m.pick, 0u, 0u, false);
        v.field("seen", m.seen, 0u, 0u, true);
    }
};
} // namespace sim
