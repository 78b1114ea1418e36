// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "limits.pb.h"
namespace sim
{
template <> struct Fields<siml::Lim>
{
    static constexpr const char *name = "siml.Lim";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pre", m.pre, 0u, 0u, true);
        v.field("s1", m.s1, 1u, 0u, true);
        v.field("s10", m.s10, 10u, 0u, true);
        v.field("s300", m.s300, 300u, 0u, false);
        v.field("b10", m.b10, 10u, 0u, true);
        v.field("b300", m.b300, 300u, 0u, true);
        v.field("c3", m.c3, 0u, 3u, false);
        v.field("c40", m.c40, 0u, 40u, false);
        v.field("rs", m.rs, 4u, 3u, false);
        v.field("kids", m.kids, 0u, 5u, false);
        v.field("rb", m.rb, 0u, 3u, false);
        v.field("rby", m.rby, 260u, 2u, false);
        v.field("rf", m.rf, 0u, 7u, false);
        v.field("post", m.post, 0u, 0u, true);
    }
};
} // namespace sim
