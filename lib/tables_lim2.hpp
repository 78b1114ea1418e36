// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "lim2.pb.h"
namespace sim
{
template <> struct Fields<siml2::Lim2>
{
    static constexpr const char *name = "siml2.Lim2";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("pre", m.pre, 0u, 0u, false);
        v.field("u3", m.u3, 0u, 3u, false);
        v.field("us", m.us, 0u, 2u, false);
        v.field("s20", m.s20, 20u, 0u, false);
        v.field("d4", m.d4, 0u, 4u, false);
        v.field("ub", m.ub, 0u, 2u, false);
        v.field("b31", m.b31, 31u, 0u, false);
        v.field("kids", m.kids, 0u, 1u, false);
        v.field("s255", m.s255, 255u, 0u, false);
    }
};
} // namespace sim
