// Other JSON documents that mean the same: every choice the JSON mapping of protobuf leaves to a writer.
#include "gpb.hpp"
#include <cmath>
#include <google/protobuf/descriptor.h>
namespace sim
{
namespace
{
namespace gp = google::protobuf;
using F      = gp::FieldDescriptor;
struct J
{
    enum Kind
    {
        WORD, // number, true, false, null
        STR,
        OBJ,
        ARR
    } kind = WORD;
    std::string s;
    std::vector<std::string> k; // member names of an object
    std::vector<J> a;           // elements, or member values
};
struct Parser
{
    std::string_view d;
    size_t i = 0;
    bool bad = false;
    void ws()
    {
        while (i < d.size() && strchr(" \t\r\n", d[i])) i++;
    }
    bool eat(char c)
    {
        ws();
        if (i < d.size() && d[i] == c)
        {
            i++;
            return true;
        }
        return false;
    }
    uint32_t hex4()
    {
        uint32_t v = 0;
        for (int k = 0; k < 4 && i < d.size(); k++)
        {
            char c = d[i++];
            v      = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
        }
        return v;
    }
    static void put(std::string &s, uint32_t c)
    {
        if (c < 0x80)
            s += char(c);
        else if (c < 0x800)
            (s += char(0xc0 | c >> 6)) += char(0x80 | (c & 63));
        else if (c < 0x10000)
            ((s += char(0xe0 | c >> 12)) += char(0x80 | (c >> 6 & 63))) += char(0x80 | (c & 63));
        else
            (((s += char(0xf0 | c >> 18)) += char(0x80 | (c >> 12 & 63))) += char(0x80 | (c >> 6 & 63))) += char(0x80 | (c & 63));
    }
    std::string str()
    {
        std::string s;
        while (i < d.size() && d[i] != '"')
        {
            char c = d[i++];
            if (c != '\\')
            {
                s += c;
                continue;
            }
            c = i < d.size() ? d[i++] : ' ';
            switch (c)
            {
            case 'b': s += '\b'; break;
            case 'f': s += '\f'; break;
            case 'n': s += '\n'; break;
            case 'r': s += '\r'; break;
            case 't': s += '\t'; break;
            case 'u':
            {
                uint32_t v = hex4();
                if (v >= 0xd800 && v < 0xdc00 && d.substr(i, 2) == "\\u")
                {
                    i += 2;
                    v = 0x10000 + ((v - 0xd800) << 10) + (hex4() - 0xdc00);
                }
                put(s, v);
                break;
            }
            default: s += c;
            }
        }
        if (i < d.size())
            i++;
        else
            bad = true;
        return s;
    }
    J value()
    {
        J v;
        ws();
        if (eat('"'))
        {
            v.kind = J::STR;
            v.s    = str();
        }
        else if (eat('{'))
        {
            v.kind = J::OBJ;
            if (eat('}')) return v;
            do
            {
                if (!eat('"'))
                {
                    bad = true;
                    return v;
                }
                std::string k = str();
                if (!eat(':')) bad = true;
                v.k.push_back(k);
                v.a.push_back(value());
            } while (!bad && eat(','));
            if (!eat('}')) bad = true;
        }
        else if (eat('['))
        {
            v.kind = J::ARR;
            if (eat(']')) return v;
            do v.a.push_back(value());
            while (!bad && eat(','));
            if (!eat(']')) bad = true;
        }
        else
        {
            while (i < d.size() && !strchr(",]} \t\r\n", d[i])) v.s += d[i++];
            if (v.s.empty()) bad = true;
        }
        return v;
    }
};
struct Writer
{
    Run &r;
    uint32_t level;
    Prng p{r.choose(0xffffffff)};
    std::string out;
    bool coin(uint32_t den) { return p.below(den * 3) < level; }
    void ws()
    {
        if (!coin(6)) return;
        static const char *const w[] = {" ", "\n", "\t", "\r\n", "  ", "\n    "};
        for (uint32_t n = 1 + p.below(3); n; n--) out += w[p.below(6)];
        if (coin(40)) out += std::string(200 + p.below(400), ' ');
    }
    void text(const std::string &s, uint32_t den)
    {
        out += '"';
        bool esc = coin(den);
        for (size_t i = 0; i < s.size();)
        {
            uint8_t c  = uint8_t(s[i]);
            size_t n   = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
            uint32_t v = n == 1 ? c : c & (0xff >> (n + 1));
            for (size_t k = 1; k < n; k++) v = v << 6 | (uint8_t(s[i + k]) & 63);
            if (c < 0x20 || c == '"' || c == '\\' || (esc && p.below(3) == 0))
            {
                const char *sh = strchr("\b\f\n\r\t\"\\/", int(v));
                if (n == 1 && c && sh && p.below(2))
                {
                    out += '\\';
                    out += ' ';
                    static const char from[] = "\b\f\n\r\t\"\\/", to[] = "bfnrt\"\\/";
                    out.back() = to[strchr(from, int(v)) - from];
                    count("json:short-escape");
                }
                else if (v >= 0x10000)
                {
                    out += strf(p.below(2) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((v - 0x10000) >> 10), 0xdc00 + ((v - 0x10000) & 0x3ff));
                    count("json:surrogate-pair");
                }
                else
                {
                    out += strf(p.below(2) ? "\\u%04x" : "\\u%04X", v);
                    count("json:unicode-escape");
                }
            }
            else
                out += s.substr(i, n);
            i += n;
        }
        out += '"';
    }
    void quoted(const std::string &s) // a number, perhaps as text
    {
        if (coin(3))
        {
            count("json:number-as-text");
            text(s, 12);
        }
        else
            out += s;
    }
    void integer(const std::string &s, bool wide)
    {
        bool neg      = s[0] == '-';
        uint64_t mag  = strtoull(s.c_str() + neg, nullptr, 10);
        std::string x = s;
        if (coin(6) && mag < (1ull << 53))
        {
            int z = 0;
            for (uint64_t m = mag; m && m % 10 == 0 && z < 6; m /= 10) z++;
            switch (p.below(4))
            {
            case 0: x += ".0"; break;
            case 1: x += p.below(2) ? "e0" : "E+0"; break;
            case 2:
                if (z)
                {
                    x.resize(x.size() - size_t(z));
                    x += strf(p.below(2) ? "e%d" : "E+0%d", z);
                }
                else
                    x += ".000";
                break;
            default:
                x = strf("%s%.1fe1", neg ? "-" : "", double(mag) / 10);
                if (strtod(x.c_str(), nullptr) != (neg ? -double(mag) : double(mag))) x = s;
            }
            if (x != s)
            {
                count("json:integer-with-exponent-or-fraction");
                out += x; // unquoted: how the text of such a number is read differs between versions of the reference
                return;
            }
        }
        (void)wide;
        quoted(x);
    }
    void real(const std::string &s, bool single)
    {
        std::string t = s;
        if (t.find_first_of("nNI") != t.npos)
        {
            out += '"' + t + '"';
            return;
        }
        if (t == "-0") t = "-0.0"; // the reference reads -0 as an integer, which has no sign at zero
        else if (coin(4))
        {
            double v  = strtod(s.c_str(), nullptr);
            float f   = strtof(s.c_str(), nullptr);
            uint32_t k = p.below(4);
            std::string x = single ? (k == 0 ? strf("%.9g", f) : k == 1 ? strf("%.17g", double(f)) : k == 2 ? strf("%.9e", f) : strf("%.8E", f))
                                   : (k == 0 ? strf("%.17g", v) : k == 1 ? strf("%.16e", v) : k == 2 ? strf("%.17E", v) : strf("%.19g", v));
            bool same = single ? strtof(x.c_str(), nullptr) == f && float(strtod(x.c_str(), nullptr)) == f : strtod(x.c_str(), nullptr) == v;
            if (same && x.size() < 31 && x != "-0")
            {
                t = x;
                count("json:other-real-format");
            }
        }
        if (single && std::fabs(strtod(t.c_str(), nullptr)) > double(3.40282346e+38f))
            out += t; // as text the reference refuses the shortest form of the largest float
        else
            quoted(t);
    }
    void scalar(const J &v, const F *f)
    {
        switch (f->type())
        {
        case F::TYPE_INT32:
        case F::TYPE_SINT32:
        case F::TYPE_SFIXED32:
        case F::TYPE_UINT32:
        case F::TYPE_FIXED32: return integer(v.s, false);
        case F::TYPE_INT64:
        case F::TYPE_SINT64:
        case F::TYPE_SFIXED64:
        case F::TYPE_UINT64:
        case F::TYPE_FIXED64: return integer(v.s, true);
        case F::TYPE_DOUBLE: return real(v.s, false);
        case F::TYPE_FLOAT: return real(v.s, true);
        case F::TYPE_ENUM:
        {
            auto *e = f->enum_type();
            auto *x = v.kind == J::STR ? e->FindValueByName(v.s) : e->FindValueByNumber(atoi(v.s.c_str()));
            if (!x)
            {
                v.kind == J::STR ? text(v.s, 1000) : void(out += v.s);
                return;
            }
            if (coin(3))
            {
                out += std::to_string(x->number());
                count("json:enum-as-number");
                return;
            }
            std::vector<const gp::EnumValueDescriptor *> names;
            for (int i = 0; i < e->value_count(); i++)
                if (e->value(i)->number() == x->number()) names.push_back(e->value(i));
            auto *y = names[p.below(uint32_t(names.size()))];
            if (y != x) count("json:enum-alias");
            return text(y->name(), 12);
        }
        case F::TYPE_BYTES:
        {
            std::string t = v.s;
            if (coin(2) && t.find_first_of("+/") != t.npos)
            {
                for (auto &c : t) c = c == '+' ? '-' : c == '/' ? '_' : c;
                count("json:url-safe-base64");
            }
            out += '"' + t + '"';
            return;
        }
        case F::TYPE_STRING: return text(v.s, 3);
        case F::TYPE_BOOL: out += v.s; return;
        default: out += v.s;
        }
    }
    void single(const J &v, const F *f)
    {
        ws();
        if (f->message_type())
            message(v, f->message_type());
        else
            scalar(v, f);
        ws();
    }
    void field(const J &v, const F *f)
    {
        if (v.kind == J::WORD && v.s == "null")
            out += "null";
        else if (f->is_map() && v.kind == J::OBJ)
        {
            out += '{';
            std::vector<size_t> w;
            for (size_t i = 0; i < v.k.size(); i++) w.push_back(i);
            shuffle(w);
            bool first = true;
            for (size_t x : w)
            {
                if (!first) out += ',';
                first = false;
                ws();
                text(v.k[x], 6);
                ws();
                out += ':';
                single(v.a[x], f->message_type()->map_value());
            }
            if (first) ws();
            out += '}';
        }
        else if (f->is_repeated() && v.kind == J::ARR)
        {
            out += '[';
            for (size_t i = 0; i < v.a.size(); i++)
            {
                if (i) out += ',';
                single(v.a[i], f);
            }
            out += ']';
        }
        else
            single(v, f);
    }
    template <class T> void shuffle(std::vector<T> &w)
    {
        if (w.size() < 2 || !coin(2)) return;
        for (size_t i = w.size() - 1; i > 0; i--) std::swap(w[i], w[p.below(uint32_t(i + 1))]);
        count("json:any-order");
    }
    void message(const J &v, const gp::Descriptor *d)
    {
        struct Item
        {
            const F *f;
            const J *v;
            const std::string *k;
        };
        static const J null{J::WORD, "null", {}, {}};
        std::vector<Item> w;
        std::vector<bool> seen(size_t(d->field_count()) + 1);
        std::vector<bool> seen_one(size_t(d->oneof_decl_count()) + 1);
        for (size_t m = 0; m < v.k.size(); m++)
        {
            auto &k    = v.k[m];
            auto &x    = v.a[m];
            const F *f = nullptr;
            for (int i = 0; i < d->field_count(); i++)
                if (d->field(i)->name() == k || d->field(i)->json_name() == k) f = d->field(i);
            if (f)
            {
                seen[size_t(f->index())] = true;
                if (f->real_containing_oneof()) seen_one[size_t(f->real_containing_oneof()->index())] = true;
            }
            w.push_back({f, &x, &k});
        }
        for (int i = 0; i < d->field_count(); i++)
        {
            auto *f = d->field(i);
            if (seen[size_t(i)] || f->is_required() || !coin(12)) continue;
            if (f->real_containing_oneof()) count("json:null-in-oneof");
            count("json:null-member");
            w.push_back({f, &null, nullptr});
        }
        shuffle(w);
        out += '{';
        bool first = true;
        for (auto &x : w)
        {
            if (!first) out += ',';
            first = false;
            ws();
            std::string key = x.f ? (p.below(2) ? x.f->name() : x.f->json_name()) : *x.k;
            text(key, 12);
            ws();
            out += ':';
            ws();
            if (x.f)
                field(*x.v, x.f);
            else
                out += "null";
            ws();
        }
        if (first) ws();
        out += '}';
    }
};
} // namespace
std::string gpb_rewrite_json(Run &r, const Ops &o, const std::string &doc)
{
    heap::Pause pause;
    auto *d = gpb_descriptor(o);
    Parser ps{doc};
    J v = ps.value();
    if (!d || ps.bad || v.kind != J::OBJ) return doc;
    Writer w{r, 1 + r.choose(3)};
    w.ws();
    w.message(v, d);
    w.ws();
    return w.out;
}
} // namespace sim
