// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit
#pragma once
#include "fields.hpp"
#include "emu.pb.h"
namespace sim
{
template <> struct EnumVals<simemu::Kind>
{
    static constexpr simemu::Kind values[] = {simemu::Kind::K_ZERO, simemu::Kind::K_LOW, simemu::Kind::K_HIGH, simemu::Kind::K_OTHER};
};
template <> struct Fields<simemu::Num>
{
    static constexpr const char *name = "simemu.Num";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("emb", m.emb, 0u, 0u, false);
        v.field("emi32", m.emi32, 0u, 0u, false);
        v.field("ems32", m.ems32, 0u, 0u, false);
        v.field("emu32", m.emu32, 0u, 0u, false);
        v.field("emf32", m.emf32, 0u, 0u, false);
        v.field("emsf32", m.emsf32, 0u, 0u, false);
        v.field("emi64", m.emi64, 0u, 0u, false);
        v.field("ems64", m.ems64, 0u, 0u, false);
        v.field("emu64", m.emu64, 0u, 0u, false);
        v.field("emf64", m.emf64, 0u, 0u, false);
        v.field("emsf64", m.emsf64, 0u, 0u, false);
        v.field("emflt", m.emflt, 0u, 0u, false);
        v.field("emdbl", m.emdbl, 0u, 0u, false);
        v.field("emstr", m.emstr, 0u, 0u, false);
        v.field("embyt", m.embyt, 0u, 0u, false);
        v.field("emkind", m.emkind, 0u, 0u, false);
        v.field("emrd", m.emrd, 0u, 0u, false);
        v.field("emrf", m.emrf, 0u, 0u, false);
        v.field("emri", m.emri, 0u, 0u, false);
        v.field("emru", m.emru, 0u, 0u, false);
        v.field("emmd", m.emmd, 0u, 0u, false);
        v.field("emms", m.emms, 0u, 0u, false);
        v.field("emmf", m.emmf, 0u, 0u, false);
        v.field("emkids", m.emkids, 0u, 0u, false);
        v.field("emone", m.emone, 0u, 0u, false);
    }
};
template <> struct Fields<simemu::Small>
{
    static constexpr const char *name = "simemu.Small";
    template <class M, class V> static void visit(M &m, V &&v)
    {
        (void)m, (void)v;
        v.field("em8", m.em8, 0u, 0u, false);
        v.field("emu8", m.emu8, 0u, 0u, false);
        v.field("em16", m.em16, 0u, 0u, false);
        v.field("emu16", m.emu16, 0u, 0u, false);
        v.field("emf", m.emf, 0u, 0u, false);
        v.field("emd", m.emd, 0u, 0u, false);
        v.field("emu", m.emu, 0u, 0u, false);
        v.field("emi", m.emi, 0u, 0u, false);
        v.field("emk", m.emk, 0u, 0u, false);
        v.bits("em3", 3, [&] { return m.em3; }, [&](auto z) { const_cast<simemu::Small &>(m).em3 = z; });
        v.bits("em40", 40, [&] { return m.em40; }, [&](auto z) { const_cast<simemu::Small &>(m).em40 = z; });
        v.bits("em33", 33, [&] { return m.em33; }, [&](auto z) { const_cast<simemu::Small &>(m).em33 = z; });
    }
};
} // namespace sim
