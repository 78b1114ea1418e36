// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "lim3.pb.h"
namespace sim
{
template <> struct Fields<siml3::FileLim>
{
    static constexpr const char *name = "siml3.FileLim";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pre", m.pre, 12u, 0u, true);
        v.field("s12", m.s12, 12u, 0u, true);
        v.field("b12", m.b12, 12u, 0u, true);
        v.field("c4", m.c4, 0u, 4u, false);
        v.field("rs", m.rs, 12u, 4u, false);
        v.field("kids", m.kids, 0u, 4u, false);
        v.field("c6", m.c6, 0u, 6u, false);
        v.field("s5", m.s5, 5u, 0u, false);
        v.field("rb", m.rb, 40u, 2u, false);
        v.field("post", m.post, 12u, 0u, true);
    }
};
template <> struct Fields<siml3::MsgLim>
{
    static constexpr const char *name = "siml3.MsgLim";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pre", m.pre, 20u, 0u, true);
        v.field("s20", m.s20, 20u, 0u, false);
        v.field("c2", m.c2, 0u, 2u, false);
        v.field("rb", m.rb, 20u, 2u, false);
        v.field("kids", m.kids, 0u, 2u, false);
        v.field("c9", m.c9, 0u, 9u, false);
        v.field("d2", m.d2, 0u, 2u, false);
        v.field("post", m.post, 20u, 0u, true);
    }
};
template <> struct Fields<siml3::SpbMsg>
{
    static constexpr const char *name = "siml3.SpbMsg";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pre", m.pre, 30u, 0u, true);
        v.field("b30", m.b30, 30u, 0u, true);
        v.field("rs", m.rs, 30u, 4u, false);
        v.field("kids", m.kids, 0u, 4u, false);
        v.field("c4", m.c4, 0u, 4u, false);
        v.field("post", m.post, 30u, 0u, true);
    }
};
template <> struct Fields<siml3::OneLim>
{
    static constexpr const char *name = "siml3.OneLim";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pre", m.pre, 12u, 0u, true);
        v.oneof("value", m.value, {0, 7, 33, 0, 12});
        v.field("kids", m.kids, 0u, 4u, false);
        v.field("post", m.post, 12u, 0u, true);
    }
};
} // namespace sim
