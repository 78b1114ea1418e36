#include "gpb.hpp"
#include <google/protobuf/compiler/importer.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/util/type_resolver_util.h>
namespace sim
{
namespace gp = google::protobuf;
namespace
{
struct Errors : gp::compiler::MultiFileErrorCollector
{
    void AddError(const std::string &f, int line, int, const std::string &m) override { fprintf(stderr, "%s:%d: %s\n", f.c_str(), line, m.c_str()); }
};
struct Peer
{
    gp::compiler::DiskSourceTree tree;
    Errors errors;
    gp::compiler::Importer imp{&tree, &errors};
    gp::DynamicMessageFactory fac{imp.pool()};
    gp::util::TypeResolver *res = nullptr;
    Peer()
    {
        tree.MapPath("", PROTO_DIR);
        for (auto &o : all_ops())
            if (o.gpb && !imp.Import(o.proto))
            {
                fprintf(stderr, "libprotobuf refuses %s\n", o.proto);
                abort();
            }
        res = gp::util::NewTypeResolverForDescriptorPool("t", imp.pool());
    }
};
Peer &peer()
{
    static Peer *p = new Peer;
    return *p;
}
} // namespace
void gpb_init() { peer(); }
bool gpb_hop(const Ops &o, const std::string &in, bool in_json, bool out_json, bool keep_names, std::string &out, std::string *err)
{
    heap::Pause pause;
    Peer &p = peer();
    auto *d = p.imp.pool()->FindMessageTypeByName(o.name);
    if (!d)
    {
        *err = "no such type";
        return false;
    }
    std::string wire = in, url = "t/" + std::string(o.name);
    if (in_json)
    {
        wire.clear();
        gp::util::JsonParseOptions po;
        auto s = gp::util::JsonToBinaryString(p.res, url, in, &wire, po);
        if (!s.ok())
        {
            *err = s.ToString();
            return false;
        }
    }
    std::unique_ptr<gp::Message> m(p.fac.GetPrototype(d)->New());
    if (!m->ParsePartialFromString(wire))
    {
        *err = "parse error";
        return false;
    }
    if (!m->IsInitialized())
    {
        *err = "missing field: " + m->InitializationErrorString();
        return false;
    }
    if (m->GetReflection()->GetUnknownFields(*m).field_count())
    {
        *err = "unknown fields";
        return false;
    }
    std::string again;
    m->SerializeToString(&again);
    if (!out_json)
    {
        out = again;
        return true;
    }
    gp::util::JsonPrintOptions jo;
    jo.preserve_proto_field_names = keep_names;
    out.clear();
    auto s = gp::util::BinaryToJsonString(p.res, url, again, &out, jo);
    if (!s.ok())
    {
        *err = s.ToString();
        return false;
    }
    return true;
}
} // namespace sim
// ------------------------------------------------------------------ meaning of an encoding, and other encodings of it
namespace sim
{
namespace
{
void meaning(const gp::Message &m, std::string &out);
std::string one(const gp::Message &m, const gp::FieldDescriptor *f, int i)
{
    using F  = gp::FieldDescriptor;
    auto *rf = m.GetReflection();
    bool rep = f->is_repeated();
    switch (f->cpp_type())
    {
    case F::CPPTYPE_INT32: return std::to_string(rep ? rf->GetRepeatedInt32(m, f, i) : rf->GetInt32(m, f));
    case F::CPPTYPE_INT64: return std::to_string(rep ? rf->GetRepeatedInt64(m, f, i) : rf->GetInt64(m, f));
    case F::CPPTYPE_UINT32: return std::to_string(rep ? rf->GetRepeatedUInt32(m, f, i) : rf->GetUInt32(m, f));
    case F::CPPTYPE_UINT64: return std::to_string(rep ? rf->GetRepeatedUInt64(m, f, i) : rf->GetUInt64(m, f));
    case F::CPPTYPE_BOOL: return (rep ? rf->GetRepeatedBool(m, f, i) : rf->GetBool(m, f)) ? "true" : "false";
    case F::CPPTYPE_ENUM: return "E" + std::to_string(rep ? rf->GetRepeatedEnumValue(m, f, i) : rf->GetEnumValue(m, f));
    case F::CPPTYPE_FLOAT:
    {
        float v = rep ? rf->GetRepeatedFloat(m, f, i) : rf->GetFloat(m, f);
        return v != v ? "nan" : strf("%a", double(v));
    }
    case F::CPPTYPE_DOUBLE:
    {
        double v = rep ? rf->GetRepeatedDouble(m, f, i) : rf->GetDouble(m, f);
        return v != v ? "nan" : strf("%a", v);
    }
    case F::CPPTYPE_STRING:
    {
        std::string v = rep ? rf->GetRepeatedString(m, f, i) : rf->GetString(m, f);
        return f->type() == F::TYPE_BYTES ? "x" + hex(v, ~size_t(0)) : quote(v, ~size_t(0));
    }
    case F::CPPTYPE_MESSAGE:
    {
        std::string s = "{";
        meaning(rep ? rf->GetRepeatedMessage(m, f, i) : rf->GetMessage(m, f), s);
        return s + "}";
    }
    }
    return "?";
}
void meaning(const gp::Message &m, std::string &out)
{
    auto *rf = m.GetReflection();
    auto *d  = m.GetDescriptor();
    for (int k = 0; k < d->field_count(); k++)
    {
        auto *f = d->field(k);
        if (f->is_map())
        {
            std::map<std::string, std::string> items; // the last one wins
            for (int i = 0; i < rf->FieldSize(m, f); i++)
            {
                auto &e                                                 = rf->GetRepeatedMessage(m, f, i);
                items[one(e, e.GetDescriptor()->map_key(), 0)] = one(e, e.GetDescriptor()->map_value(), 0);
            }
            if (items.empty()) continue;
            out += f->name() + "=<";
            for (auto &[a, b] : items) out += a + ":" + b + ",";
            out += ">;";
        }
        else if (f->is_repeated())
        {
            int n = rf->FieldSize(m, f);
            if (!n) continue;
            out += f->name() + "=[";
            for (int i = 0; i < n; i++) out += one(m, f, i) + ",";
            out += "];";
        }
        else if (rf->HasField(m, f))
            out += f->name() + "=" + one(m, f, 0) + ";";
    }
}
struct Rec
{
    uint32_t num;
    int wt;
    std::string v; // payload without tag and length
    const gp::FieldDescriptor *f;
};
bool records(const gp::Descriptor *d, const std::string &in, std::vector<Rec> &out)
{
    std::vector<RawField> raw;
    if (!split_pb(in, raw)) return false;
    for (auto &x : raw) out.push_back({x.num, x.wt, in.substr(x.payload, x.end - x.payload), d->FindFieldByNumber(int(x.num))});
    return true;
}
struct Rewriter
{
    Run &r;
    uint32_t level; // how much is changed, 1 .. 3
    Prng p{r.choose(0xffffffff)};
    bool coin(uint32_t den) { return p.below(den * 3) < level; }
    void pad(std::string &s, size_t from, size_t most)
    {
        size_t n = s.size() - from;
        if (!coin(6) || n >= most) return;
        size_t k = 1 + p.below(uint32_t(most - n));
        s.back() = char(s.back() | 0x80);
        for (size_t i = 0; i + 1 < k; i++) s += char(0x80);
        s += '\0';
        count("wire:overlong-varint");
    }
    std::string emit(const Rec &x)
    {
        std::string s;
        put_varint(s, uint64_t(x.num) << 3 | unsigned(x.wt));
        pad(s, 0, 5);
        if (x.wt == 2)
        {
            size_t at = s.size();
            put_varint(s, x.v.size());
            pad(s, at, 5);
            return s + x.v;
        }
        size_t at = s.size();
        s += x.v;
        if (x.wt == 0 && !(x.f && x.f->type() == gp::FieldDescriptor::TYPE_BOOL)) pad(s, at, 10);
        return s;
    }
    void unknown(std::string &s)
    {
        if (!coin(8)) return;
        s += unknown_field(r, 0, 2);
        count("wire:unknown-field");
    }
    std::string join(const std::vector<Rec> &v)
    {
        std::string s;
        for (auto &x : v)
        {
            unknown(s);
            s += emit(x);
        }
        unknown(s);
        return s;
    }
    static bool numeric(const gp::FieldDescriptor *f) { return f && f->is_repeated() && f->is_packable(); }
    static int elem_wt(const gp::FieldDescriptor *f)
    {
        using F = gp::FieldDescriptor;
        switch (f->type())
        {
        case F::TYPE_DOUBLE:
        case F::TYPE_FIXED64:
        case F::TYPE_SFIXED64: return 1;
        case F::TYPE_FLOAT:
        case F::TYPE_FIXED32:
        case F::TYPE_SFIXED32: return 5;
        default: return 0;
        }
    }
    std::vector<std::string> elems(const Rec &x)
    {
        std::vector<std::string> out;
        if (x.wt != 2) return {x.v};
        int w = elem_wt(x.f);
        for (size_t i = 0; i < x.v.size();)
        {
            size_t n = w == 1 ? 8 : w == 5 ? 4 : 1;
            if (!w)
                while (x.v[i + n - 1] & 0x80) n++;
            out.push_back(x.v.substr(i, n));
            i += n;
        }
        return out;
    }
    std::string entry(const gp::Descriptor *d, const std::string &in, const std::vector<std::string> &others, int depth)
    {
        std::vector<Rec> v, out;
        if (!records(d, in, v)) return in;
        for (auto &x : v)
        {
            if (!x.f)
            {
                out.push_back(x);
                continue;
            }
            bool key = x.num == 1;
            if (key && !others.empty() && coin(4))
            {
                std::vector<Rec> w;
                if (records(d, others[p.below(uint32_t(others.size()))], w))
                    for (auto &y : w)
                        if (y.num == 1)
                        {
                            x = y;
                            count("wire:map-key-again");
                            break;
                        }
            }
            bool msg = !key && x.f->message_type();
            bool dflt = x.wt == 2 ? x.v.empty() : x.wt == 0 ? x.v == std::string(1, '\0') : x.v.find_first_not_of('\0') == x.v.npos;
            if (dflt && !msg && coin(2))
            {
                count(key ? "wire:map-key-omitted" : "wire:map-value-omitted");
                continue;
            }
            if (dflt && msg && coin(2))
            {
                count("wire:map-value-omitted");
                continue;
            }
            if (msg)
            {
                std::string a, b;
                if (split(x, a, b))
                {
                    out.push_back({x.num, 2, rewrite(x.f->message_type(), a, depth + 1), x.f});
                    x.v = b;
                }
                x.v = rewrite(x.f->message_type(), x.v, depth + 1);
            }
            else if (!others.empty() && coin(6)) // an earlier value of the same member, replaced by the later one
            {
                std::vector<Rec> w;
                if (records(d, others[p.below(uint32_t(others.size()))], w))
                    for (auto &y : w)
                        if (y.num == x.num)
                        {
                            out.push_back(y);
                            count("wire:map-member-twice");
                            break;
                        }
            }
            out.push_back(x);
        }
        if (out.size() == 2 && out[0].num != out[1].num && coin(2))
        {
            std::swap(out[0], out[1]);
            count("wire:map-value-first");
        }
        return join(out);
    }
    bool split(const Rec &x, std::string &a, std::string &b)
    {
        if (!coin(3)) return false;
        std::vector<RawField> raw;
        if (!split_pb(x.v, raw)) return false;
        size_t k  = p.below(uint32_t(raw.size() + 1));
        size_t at = k < raw.size() ? raw[k].begin : x.v.size();
        a         = x.v.substr(0, at);
        b         = x.v.substr(at);
        count("wire:message-split");
        return true;
    }
    std::string rewrite(const gp::Descriptor *d, const std::string &in, int depth = 0)
    {
        std::vector<Rec> v, out;
        if (depth > 40 || !records(d, in, v)) return in;
        std::map<uint32_t, std::vector<std::string>> entries;
        for (auto &x : v)
            if (x.f && x.f->is_map()) entries[x.num].push_back(x.v);
        for (size_t i = 0; i < v.size(); i++)
        {
            auto &x = v[i];
            if (x.f && x.f->is_map() && x.wt == 2)
            {
                x.v = entry(x.f->message_type(), x.v, entries[x.num], depth);
                out.push_back(x);
            }
            else if (x.f && x.f->message_type() && x.wt == 2)
            {
                std::string a, b;
                if (!x.f->is_repeated() && split(x, a, b))
                {
                    out.push_back({x.num, 2, rewrite(x.f->message_type(), a, depth + 1), x.f});
                    x.v = b;
                }
                x.v = rewrite(x.f->message_type(), x.v, depth + 1);
                out.push_back(x);
            }
            else if (numeric(x.f))
            {
                // a run of elements, regrouped
                std::vector<std::string> el = elems(x);
                while (i + 1 < v.size() && v[i + 1].num == x.num)
                    for (auto &e : elems(v[++i])) el.push_back(e);
                bool was = x.wt == 2;
                size_t k = 0;
                bool change = coin(2);
                do
                {
                    bool pack = change ? p.below(2) : was;
                    size_t n  = change ? p.below(uint32_t(el.size() - k + 1)) : el.size() - k;
                    Rec y{x.num, pack ? 2 : elem_wt(x.f), "", x.f};
                    if (pack)
                    {
                        for (; n; n--)
                        {
                            std::string e = el[k++];
                            if (elem_wt(x.f) == 0 && x.f->type() != gp::FieldDescriptor::TYPE_BOOL) pad(e, 0, 10);
                            y.v += e;
                        }
                        out.push_back(y);
                        if (change && !x.f->is_packed()) count("wire:packed-although-not-declared");
                        if (change) count("wire:packed-run");
                    }
                    else
                        for (; n; n--)
                        {
                            y.v = el[k++];
                            out.push_back(y);
                            if (change && x.f->is_packed()) count("wire:unpacked-although-declared");
                        }
                } while (k < el.size());
            }
            else
                out.push_back(x);
        }
        if (out.size() > 1 && coin(2))
        {
            for (size_t i = out.size() - 1; i > 0; i--) std::swap(out[i], out[p.below(uint32_t(i + 1))]);
            count("wire:any-order");
        }
        return join(out);
    }
};
} // namespace
bool gpb_meaning(const Ops &o, const std::string &wire, std::string &text, std::string *err)
{
    heap::Pause pause;
    auto *d = peer().imp.pool()->FindMessageTypeByName(o.name);
    if (!d)
    {
        *err = "no such type";
        return false;
    }
    std::unique_ptr<gp::Message> m(peer().fac.GetPrototype(d)->New());
    if (!m->ParsePartialFromString(wire))
    {
        *err = "parse error";
        return false;
    }
    if (!m->IsInitialized())
    {
        *err = "missing field: " + m->InitializationErrorString();
        return false;
    }
    text.clear();
    meaning(*m, text);
    return true;
}
std::string gpb_rewrite(Run &r, const Ops &o, const std::string &wire)
{
    heap::Pause pause;
    auto *d = peer().imp.pool()->FindMessageTypeByName(o.name);
    if (!d) return wire;
    Rewriter w{r, 1 + r.choose(3)};
    return w.rewrite(d, wire);
}
} // namespace sim
namespace sim
{
const gp::Descriptor *gpb_descriptor(const Ops &o) { return peer().imp.pool()->FindMessageTypeByName(o.name); }
bool gpb_json_to_wire(const Ops &o, const std::string &doc, std::string &wire, std::string *err)
{
    heap::Pause pause;
    wire.clear();
    gp::util::JsonParseOptions po;
    auto s = gp::util::JsonToBinaryString(peer().res, "t/" + std::string(o.name), doc, &wire, po);
    if (!s.ok()) *err = s.ToString();
    return s.ok();
}
} // namespace sim
