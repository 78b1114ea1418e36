#!/usr/bin/env python3
"""Writes lib/tables_*.hpp, lib/ops_*.cpp and lib/lims.inc (all committed) from the schema corpus in lib/proto."""
import re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAMS = ["scal", "modern", "fixed", "limits", "lim2", "lim3", "evo", "ddep", "deep", "opts", "emu"]
NOGPB = {"lim2"}
LIMS = {"limits", "lim2", "lim3"}
HEAPFREE = {"simf.Sub", "simf.Fixed", "simt.Bits", "simt.Empty", "simt.Point", "simemu.Small"}
KEYWORDS = {"float", "union", "switch", "private", "int", "default", "class", "delete", "namespace", "template", "int"}
SCALAR = {"string": "s", "bytes": "b", "fixed32": "f", "sfixed32": "f", "float": "f", "double": "d", "fixed64": "d", "sfixed64": "d", "bool": "o",
          "int32": "i", "int64": "i", "uint32": "i", "uint64": "i", "sint32": "i", "sint64": "i"}


def ident(n):
    return n + "_" if n in KEYWORDS else n


class Msg:
    def __init__(s, name, parent):
        s.name, s.parent, s.fields, s.msgs, s.enums, s.opts = name, parent, [], [], [], {}

    def path(s):
        return (s.parent.path() if s.parent else []) + [s.name]


TOK = re.compile(r'\s+|//\[\[.*?\]\]|//[^\n]*|"(?:\\.|[^"])*"|[A-Za-z_][\w.]*|-?\d+(?:\.\d+)?|.', re.S)


def parse(text):
    toks = [t for t in TOK.findall(text) if t.strip() and not (t.startswith("//") and not t.startswith("//[["))]
    pos = 0
    fopts, pend = {}, {}

    def body(m, toks, pos):
        nonlocal pend
        oneof = False
        while pos < len(toks):
            t = toks[pos]
            if t.startswith("//[["):
                mm = re.match(r"//\[\[ ?(.*?) ?\]\]", t)
                k, v = mm.group(1).split(" = ", 1)
                pend[k] = v.strip('"')
                if m is None and "fileopt" in k:
                    fopts[k] = pend.pop(k)
                pos += 1
            elif t == "}":
                if oneof:
                    oneof = False
                    pos += 1
                    continue
                return pos + 1
            elif t in ("syntax", "package", "import", "option", "reserved", "extensions"):
                while toks[pos] != ";":
                    pos += 1
                pos += 1
            elif t == "enum":
                name, vals = toks[pos + 1], []
                assert toks[pos + 2] == "{"
                pos += 3
                while toks[pos] != "}":
                    if toks[pos] == "option":
                        while toks[pos] != ";":
                            pos += 1
                    elif toks[pos + 1] == "=":
                        vals.append(toks[pos])
                        pos += 3
                    pos += 1
                pos += 1
                pend = {}
                (m.enums if m else enums).append((name, vals))
            elif t == "message":
                n = Msg(toks[pos + 1], m)
                n.opts, pend = pend, {}
                assert toks[pos + 2] == "{"
                (m.msgs if m else msgs).append(n)
                pos = body(n, toks, pos + 3)
            elif t == "oneof":
                m.fields.append(dict(name=toks[pos + 1], kind="oneof", label="", ty="", opts={}, num=0, rest=""))
                oneof = True
                assert toks[pos + 2] == "{"
                pos += 3
            else:
                label = ""
                if t in ("optional", "required", "repeated"):
                    label = t
                    pos += 1
                ty = toks[pos]
                pos += 1
                if ty == "map":
                    while toks[pos] != ">":
                        ty += toks[pos]
                        pos += 1
                    pos += 1
                name = toks[pos]
                assert toks[pos + 1] == "=", (toks[pos - 5:pos + 5])
                num = int(toks[pos + 2])
                pos += 3
                rest = ""
                while toks[pos] != ";":
                    rest += " " + toks[pos]
                    pos += 1
                pos += 1
                jn = re.search(r'json_name = "(.*?)"', rest)
                names.append((jn.group(1) if jn else name, ty))
                fld = dict(name=name, kind="field", label=label, ty=ty, opts=pend, num=num, rest=rest)
                if oneof:
                    m.fields[-1].setdefault("members", []).append(fld)
                else:
                    m.fields.append(fld)
                pend = {}
        return pos

    msgs, enums = [], []
    body(None, toks, 0)
    return msgs, enums, fopts


def limit(opts, scope, what):
    v = opts.get(f"(spb_{scope}).{what}") or opts.get(f"(nanopb{'' if scope == 'opt' else '_' + scope}).{what}")
    if v is None and what == "max_size":
        l = opts.get(f"(nanopb{'' if scope == 'opt' else '_' + scope}).max_length")
        v = l and int(l) + 1
    return v and int(v)


lims, names = [], []
for f in FAMS:
    s = open(f"{root}/lib/proto/{f}.proto").read()
    pkg = re.search(r"package ([\w.]+);", s).group(1)
    ns = pkg.replace(".", "::")
    proto3 = '"proto3"' in s
    msgs, enums, fopts = parse(s)
    out = ["// generated by tools/gen_tables.py from lib/proto/*.proto; do not edit", "#pragma once", '#include "fields.hpp"']
    out += [f'#include "tables_{os.path.splitext(i)[0]}.hpp"' for i in re.findall(r'import "(.*?)"', s)]
    out += [f'#include "{f}.pb.h"', "namespace sim\n{"]
    types = []

    def enum(path, name, vals):
        T = "::".join([ns] + path + [ident(name)])
        out.append(f"template <> struct EnumVals<{T}>\n{{\n    static constexpr {T} values[] = {{" + ", ".join(f"{T}::{ident(v)}" for v in vals) + "};\n};")

    def msg(m):
        for n, v in m.enums:
            enum(m.path(), n, v)
        for x in m.msgs:
            msg(x)
        T = "::".join([ns] + m.path())
        N = ".".join([pkg] + m.path())
        types.append((T, N))
        out.append(f"template <> struct Fields<{T}>\n{{\n    static constexpr const char *name = \"{N}\";\n"
                   f"    template <class M, class V> static void visit(M &m, V &&v)\n    {{\n        (void)m, (void)v;")
        kids = next((x["num"] for x in m.fields if x["name"] == "kids"), 0)
        mlim = lambda y: y["ty"] in ("string", "bytes") and (limit(y["opts"], "opt", "max_size") or limit(m.opts, "msgopt", "max_size") or limit(fopts, "fileopt", "max_size")) or 0
        for x in m.fields:
            n = ident(x["name"])
            o = x["opts"]
            bf = re.match(r"\w+:(\d+)", o.get("(spb_opt).type", ""))
            ms = mc = 0
            if x["ty"] in ("string", "bytes"):
                ms = limit(o, "opt", "max_size") or limit(m.opts, "msgopt", "max_size") or limit(fopts, "fileopt", "max_size") or 0
            if x["label"] == "repeated":
                mc = limit(o, "opt", "max_count") or limit(m.opts, "msgopt", "max_count") or limit(fopts, "fileopt", "max_count") or 0
            if bf:
                out.append(f"        v.bits(\"{n}\", {bf.group(1)}, [&] {{ return m.{n}; }}, [&](auto z) {{ const_cast<{T} &>(m).{n} = z; }});")
            elif x["kind"] == "oneof" and any(mlim(y) for y in x["members"]):
                ml = [mlim(y) for y in x["members"]]
                out.append(f"        v.oneof(\"{n}\", m.{n}, {{0, {', '.join(map(str, ml))}}});")
                for y in x["members"]:
                    if mlim(y):
                        lims.append(f'    {{"{N}", "{y["name"]}", {y["num"]}, \'{SCALAR[y["ty"]]}\', {mlim(y)}, 0, false, {kids}}},')
            else:
                out.append(f"        v.field(\"{n}\", m.{n}, {ms}u, {mc}u, {'true' if proto3 and x['kind'] == 'field' and x['label'] == '' else 'false'});")
            if f in LIMS and (ms or mc) and n != "pre" and n != "post":
                k = SCALAR.get(x["ty"], "m")
                packed = x["label"] == "repeated" and k not in "sbm" and (proto3 or "packed = true" in x["rest"])
                lims.append(f'    {{"{N}", "{n}", {x["num"]}, \'{k}\', {ms}, {mc}, {"true" if packed else "false"}, {kids}}},')
        out.append("    }\n};")

    for n, v in enums:
        enum([], n, v)
    for m in msgs:
        msg(m)
    out.append("} // namespace sim")
    open(f"{root}/lib/tables_{f}.hpp", "w").write("\n".join(out) + "\n")
    o = ["// generated by tools/gen_tables.py", '#include "ops_impl.hpp"', f'#include "tables_{f}.hpp"', "namespace sim\n{", f"void register_{f}()\n{{"]
    for T, N in types:
        o.append(f"    add_ops<{T}>(\"{f}.proto\", {'false' if f in NOGPB else 'true'}, {'true' if N in HEAPFREE else 'false'});")
    o.append("}\n}")
    open(f"{root}/lib/ops_{f}.cpp", "w").write("\n".join(o) + "\n")
open(f"{root}/lib/lims.inc", "w").write("\n".join(lims) + "\n")
# names as written in JSON: of maps (of any type), and of fields that are text in every type that has the name
maps = sorted({n for n, t in names if t.startswith("map")})
istext = lambda t: t == "string" or (t.startswith("map") and t.endswith(",string"))
text = sorted({n for n, t in names if istext(t)} - {n for n, t in names if not istext(t)})
open(f"{root}/lib/names.inc", "w").write("".join(f"static const char *const {v}[] = {{{', '.join(chr(34) + x + chr(34) for x in l)}}};\n" for v, l in (("MAP_NAMES", maps), ("TEXT_NAMES", text))))
