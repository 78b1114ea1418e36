// P10, P11, P16, P17: damaged data, text validity, schema versions, limits.
#include "world.hpp"
#include <algorithm>
namespace sim
{
std::string intact_stream(Run &r, const Msg &m, Fmt f, bool extras);

// ------------------------------------------------------------------ P10
static std::string token_soup(Run &r, const std::string &doc)
{
    // pieces of a real document and of the JSON grammar in random order
    std::vector<std::string> pieces;
    size_t b = 0;
    for (size_t i = 0; i < doc.size(); i++)
        if (strchr("{}[],:", doc[i]))
        {
            if (i > b) pieces.push_back(doc.substr(b, i - b));
            b = i + 1;
        }
    static const char *const g[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "nul", "\"\"", "\\u", "\"\\u12", "\"\\ud800\"", "-", "1e", "0x1", "\"=\"", "\"AA==\"", "\"A===\"", " ", "\n", "\t", "\xff", "\xc3", "{}", "[]", "\"null\"", "1.5", "99999999999999999999"};
    std::string s = r.choose(4) ? "{" : "";
    uint32_t n    = 1 + r.choose(40);
    Prng p(r.choose(0xffffffff));
    for (uint32_t i = 0; i < n; i++)
    {
        if (!pieces.empty() && p.below(2))
        {
            s += pieces[p.below(uint32_t(pieces.size()))];
            if (p.below(2)) s += p.below(2) ? ":" : ",";
        }
        else
            s += g[p.below(sizeof g / sizeof *g)];
    }
    return s;
}
static std::string hostile_pb(Run &r)
{
    std::string s;
    uint32_t n = 1 + r.choose(12);
    for (uint32_t i = 0; i < n; i++)
    {
        uint32_t num = r.choose(3) ? 1 + r.choose(20) : uint32_t(r.choose(0x1fffffff)) + 1;
        uint32_t wt  = r.choose(6) == 5 ? r.choose(8) : (uint32_t[]){0, 1, 2, 5, 2}[r.choose(5)];
        put_varint(s, uint64_t(num) << 3 | wt);
        switch (wt)
        {
        case 0: put_varint(s, r.choose(2) ? r.bits64() : r.choose(300)); break;
        case 1:
            for (int k = 0; k < 8; k++) s += char(r.choose(256));
            break;
        case 5:
            for (int k = 0; k < 4; k++) s += char(r.choose(256));
            break;
        case 2:
        {
            static const uint64_t lens[] = {0, 1, 2, 5, 127, 128, 300, 70000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, ~0ull, 1ull << 63};
            uint64_t len = r.choose(2) ? r.choose(20) : lens[r.choose(14)];
            put_varint(s, len);
            Prng p(r.choose(0xffffffff));
            uint32_t have = uint32_t(std::min<uint64_t>(len, r.choose(3) == 2 ? r.choose(400) : 64));
            for (uint32_t k = 0; k < have; k++) s += char(p.next() >> (p.below(3) * 3));
            break;
        }
        default: break;
        }
    }
    return s;
}
static std::string bomb(Run &r, const Ops *&o, Fmt f)
{
    static const char *const names[] = {"simt3.Tree", "simt.Opt", "simt.Text", "simt.Rep"};
    static const uint32_t field[]    = {1, 2000, 6, 19};
    static const char *const key[]   = {"left", "self", "inner", "rep"};
    uint32_t t = r.choose(4);
    o          = &ops(names[t]);
    uint32_t n = r.choose(2) ? 20 + r.choose(2000) : 2000 + r.choose(60000);
    count("damage:nesting-bomb");
    std::string s;
    if (f == JSON)
    {
        uint32_t how = r.choose(4);
        bool close   = r.choose(2);
        std::string head = how == 0 ? strf("{\"%s\":%s", key[t], t == 3 ? "[" : "") : how == 1 ? "[" : how == 2 ? "{\"a\":" : "[{\"\":";
        std::string tail = how == 0 ? (t == 3 ? "]}" : "}") : how == 1 ? "]" : how == 2 ? "}" : "}]";
        if (how) s = "{\"zz\":";
        for (uint32_t i = 0; i < n; i++) s += head;
        s += how ? "1" : "{}";
        if (close)
            for (uint32_t i = 0; i < n; i++) s += tail;
        if (how) s += "}";
        return s;
    }
    std::vector<std::string> heads;
    size_t len = 0;
    for (uint32_t i = 0; i < n; i++)
    {
        std::string x;
        put_varint(x, field[t] << 3 | 2);
        put_varint(x, len);
        len += x.size();
        heads.push_back(std::move(x));
    }
    for (uint32_t i = n; i--;) s += heads[i];
    return f == PBD ? delimit(s) : s;
}
static void w_p10(Run &r)
{
    const Ops *o = &pick_any(r);
    Fmt f        = Fmt(r.choose(3));
    std::string s;
    uint32_t how = r.choose(40) == 39 ? 9 : r.choose(7);
    switch (how)
    {
    case 0:
    case 1:
    case 2: // stored or transmitted bytes changed
    {
        Msg m = gen_msg(r, *o, false, 4, 40);
        s     = intact_stream(r, m, f, r.choose(2));
        uint32_t n = how == 2 ? 4 : 1;
        for (uint32_t i = 0; i < n; i++) s = damage(r, s);
        break;
    }
    case 3: // another node's data: wrong type
    {
        const Ops &w = pick_any(r);
        Msg m        = gen_msg(r, w, false, 4, 40);
        s            = encode(m, f);
        count("damage:wrong-type");
        break;
    }
    case 4: // two streams mixed
    {
        Msg a = gen_msg(r, *o, f == JSON, 3, 20), b = gen_msg(r, pick_any(r), false, 3, 20);
        std::string x = encode(a, f), y = encode(b, f);
        s = x.substr(0, r.choose(uint32_t(x.size()) + 1)) + y.substr(r.choose(uint32_t(y.size()) + 1));
        count("damage:spliced");
        break;
    }
    case 5:
        if (f == JSON)
        {
            Msg m = gen_msg(r, *o, true, 3, 20);
            s     = token_soup(r, encode(m, JSON));
            count("damage:token-soup");
        }
        else
        {
            s = hostile_pb(r);
            if (f == PBD) s = delimit(s);
            count("damage:hostile-fields");
        }
        break;
    case 9: s = bomb(r, o, f); break;
    default:
    {
        uint32_t n = r.choose(300);
        Prng p(r.choose(0xffffffff));
        uint32_t k = p.below(3);
        for (uint32_t i = 0; i < n; i++) s += k == 0 ? char(p.next()) : k == 1 ? char(p.below(40)) : char(32 + p.below(95));
        count("damage:noise");
    }
    }
    r.ev("%s as %s, %zu bytes: %s", o->name, fmt_name(f), s.size(), f == JSON ? quote(s, 200).c_str() : hex(s, 120).c_str());
    bool any = false;
    for (int i = 0; i < 2; i++)
    {
        Msg got(*o);
        SimReader rd;
        rd.set(s);
        Res res;
        if (i)
        {
            draw_policy(r, rd, s.size());
            if (s.size() > 20000 && (rd.policy == SimReader::ONE || rd.k < 50)) rd.policy = SimReader::WHOLE;
            res = deserialize_reader(got, rd, f, 0);
        }
        else
            res = deserialize_buffer(got, s, f, int(r.choose(3)));
        r.ev("%s: %s", i ? policy_text(rd).c_str() : "buffer", res.text().c_str());
        r.sig(mix(mix(rd.trace, hash_bytes(s.data(), s.size())), res.out));
        if (res.out == OTHEREXC || res.out == IOEXC) fail("foreign-exception", "%s as %s: decoding damaged data throws something else than a std::exception", o->name, fmt_name(f));
        Walk w = got.walk(); // every byte of the value is readable
        if (!res.ok()) continue;
        any = true;
        if (res.ret > s.size()) fail("consumed-too-much", "%s as %s: %zu bytes reported consumed of %zu", o->name, fmt_name(f), res.ret, s.size());
        // it can be encoded again, and that decodes to the same
        std::string enc;
        Res re = serialize_string(got, enc, PB);
        if (!re.ok()) fail("accepted-not-encodable", "%s accepted from damaged %s cannot be serialized: %s; value %s; input %s", o->name, fmt_name(f), re.text().c_str(), clip(w.out, 300).c_str(), f == JSON ? quote(s, 200).c_str() : hex(s, 120).c_str());
        Msg back(*o);
        Res rb = deserialize_buffer(back, enc, PB, 0);
        if (!rb.ok() || back.text() != w.out)
            fail("accepted-not-stable", "%s accepted from damaged %s: value %s, after encoding and decoding %s %s; input %s", o->name, fmt_name(f), clip(w.out, 500).c_str(), rb.text().c_str(), clip(back.text(), 500).c_str(),
                 f == JSON ? quote(s, 200).c_str() : hex(s, 120).c_str());
        SimWriter wj;
        (void)serialize_writer(got, wj, JSON);
    }
    count(any ? "outcome:accepted" : "outcome:rejected");
    r.nontrivial = true;
    r.sample     = strf("%s as %s, %zu bytes, damage kind %u -> %s", o->name, fmt_name(f), s.size(), how, any ? "accepted" : "rejected");
}
static Reg p10({"P10", [](Run &r) { lib_world(r, w_p10, true); }, 120000, 30000000, 40, 3000,
                "one run = one byte sequence (valid data with 1-12 stored-byte faults, another type's data, two streams spliced, hostile tags and lengths, JSON token soup, noise, nesting bombs) decoded from a buffer and a fragmenting reader; accepted values are walked, re-encoded and decoded again; every run counts as non-trivial",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (input bytes, delivery, outcomes)", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P11
static const char MARK[] = "QZXJKVWY";
static std::string bad_or_good(Run &r, bool json, std::string &decoded, bool &valid_escape)
{
    // 8 raw bytes (same length as the mark), or for JSON also escapes
    static const char *const pieces[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "\xc2\x80", "\xe0\xa0\x80", "\xf0\x90\x80\x80", "\x7f", // valid
                                         "\xc0\xaf", "\xc1\xbf", "\xe0\x80\xaf", "\xe0\x9f\xbf", "\xf0\x80\x80\xaf", "\xf0\x8f\xbf\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80",
                                         "\xff", "\xfe", "\x80", "\xbf", "\xc3", "\xe2\x82", "\xe2", "\xf0\x9f\x98", "\xf0\x9f", "\xf0", "\xc3(", "\xe2(\xa1", "\xe2\x82(", "\xf0(\x8c\xbc", "\xf8\x88\x80\x80\x80", "\xfc\x80\x80\x80\x80\x80",
                                         "\xed\xa0\x80\xed\xb0\x80", "\xc3\xa9\xa9", "\xe2\x82\xac\x82"};
    const uint32_t np = sizeof pieces / sizeof *pieces;
    valid_escape      = true;
    if (json && r.choose(2))
    {
        static const char *const esc[] = {"\\u00e9", "\\u20ac", "\\ud83d\\ude00", "\\uD7FF", "\\ue000", "\\udbff\\udfff", "\\u0041", "\\uffff",
                                          "\\ud800", "\\udc00", "\\udfff", "\\ud800x", "\\ud800\\u0041", "\\ud800\\ud800", "\\udc00\\ud800", "\\ud83d\\n", "\\uDBFF", "\\ud83d\\ud83d\\ude00", "\\ud83d\\ue000", "\\ud83d\\udbff"};
        std::string s;
        uint32_t n = 1 + r.choose(3);
        for (uint32_t i = 0; i < n; i++) s += esc[r.choose(20)];
        // what the whole sequence stands for; surrogates are paired across the pieces
        for (size_t i = 0; i < s.size();)
        {
            if (s[i] != '\\' || s[i + 1] != 'u')
            {
                decoded += s[i] == '\\' ? '\n' : s[i];
                i += s[i] == '\\' ? 2 : 1;
                continue;
            }
            uint32_t c = uint32_t(strtoul(s.substr(i + 2, 4).c_str(), nullptr, 16));
            i += 6;
            if (c >= 0xd800 && c < 0xdc00 && i + 6 <= s.size() && s[i] == '\\' && s[i + 1] == 'u')
            {
                uint32_t d = uint32_t(strtoul(s.substr(i + 2, 4).c_str(), nullptr, 16));
                if (d >= 0xdc00 && d < 0xe000)
                {
                    c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
                    i += 6;
                }
            }
            if (c >= 0xd800 && c < 0xe000) valid_escape = false;
            else if (c < 0x80) decoded += char(c);
            else if (c < 0x800) (decoded += char(0xc0 | c >> 6)) += char(0x80 | (c & 63));
            else if (c < 0x10000) ((decoded += char(0xe0 | c >> 12)) += char(0x80 | (c >> 6 & 63))) += char(0x80 | (c & 63));
            else (((decoded += char(0xf0 | c >> 18)) += char(0x80 | (c >> 12 & 63))) += char(0x80 | (c >> 6 & 63))) += char(0x80 | (c & 63));
        }
        return s;
    }
    std::string s(r.choose(8), 'k');
    while (s.size() < 8)
    {
        std::string p = pieces[r.choose(np)];
        if (s.size() + p.size() > 8) p = std::string(8 - s.size(), 'v');
        s += p;
    }
    decoded = s;
    return s;
}
static void w_p11(Run &r)
{
    const Ops *o;
    do
        o = &pick_any(r);
    while (!strcmp(o->name, "simt.Empty") || !strcmp(o->name, "simt.Bits") || !strcmp(o->name, "simt.Pack") || !strcmp(o->name, "simt.Narrow") || !strcmp(o->name, "sime.Oldest"));
    Fmt f = Fmt(r.choose(3));
    if (r.choose(4) == 3)
    {
        // serializing text that is not UTF-8 is refused
        Msg m(*o);
        {
            Gen g(r);
            gen_profile(r, g, true);
            g.poison = true;
            o->gen(m.p, g);
        }
        Walk w = m.walk();
        SimWriter wr;
        Res res = serialize_writer(m, wr, f);
        r.ev("serialize %s as %s: bad '%s': %s", o->name, fmt_name(f), w.bad_utf8.c_str(), res.text().c_str());
        if (!w.bad_utf8.empty())
        {
            r.nontrivial = true;
            count("probe:serialize-invalid-text");
            if (res.ok()) fail("invalid-text-emitted", "%s as %s: the string %s is not UTF-8 and was serialized", o->name, fmt_name(f), w.bad_utf8.c_str());
            if (res.out != EXC) fail("invalid-text-error", "%s as %s: %s", o->name, fmt_name(f), res.text().c_str());
            std::string out;
            Res rc = serialize_string(m, out, f, int(r.choose(4)));
            if (rc.ok()) fail("invalid-text-emitted", "%s as %s: the string %s is not UTF-8 and was serialized into a container", o->name, fmt_name(f), w.bad_utf8.c_str());
        }
        else if (!res.ok())
            fail("valid-text-refused", "%s as %s: every string is valid UTF-8, serialize says %s", o->name, fmt_name(f), res.text().c_str());
        r.sig(mix(hash_bytes(w.out.data(), w.out.size()), f));
        r.sample = strf("serialize %s as %s, invalid: %s", o->name, fmt_name(f), w.bad_utf8.c_str());
        return;
    }
    Msg m(*o);
    {
        Gen g(r);
        gen_profile(r, g, true);
        g.density = std::max(g.density, 2u);
        g.mark    = MARK;
        o->gen(m.p, g);
    }
    std::string enc = encode(m, f == PBD ? PB : f);
    std::vector<size_t> at;
    for (size_t p = enc.find(MARK); p != enc.npos; p = enc.find(MARK, p + 8)) at.push_back(p);
    bool must_reject = false;
    uint32_t hits    = 0;
    if (!at.empty())
    {
        hits = 1 + r.choose(std::min<uint32_t>(uint32_t(at.size()), 3));
        std::vector<size_t> pick;
        for (uint32_t i = 0; i < hits; i++)
        {
            uint32_t k = r.choose(uint32_t(at.size()));
            pick.push_back(at[k]);
            at.erase(at.begin() + k);
        }
        std::sort(pick.rbegin(), pick.rend());
        for (size_t p : pick)
        {
            std::string dec;
            bool ve;
            std::string x = bad_or_good(r, f == JSON, dec, ve);
            bool ok       = ve && utf8_valid(dec);
            must_reject |= !ok;
            count(ok ? "probe:valid-text" : "damage:text-corrupted");
            r.ev("text at %zu becomes %s (%s)", p, quote(x).c_str(), ok ? "valid" : "not UTF-8");
            enc.replace(p, 8, x);
        }
    }
    bool damaged = r.coin(1, 4);
    // escapes change sizes: only the length of strings with a declared size may matter
    if (f == PBD) enc = delimit(enc);
    if (damaged) enc = damage(r, enc);
    for (int i = 0; i < 2; i++)
    {
        Msg got(*o);
        SimReader rd;
        rd.set(enc);
        Res res;
        if (i)
        {
            draw_policy(r, rd, enc.size());
            res = deserialize_reader(got, rd, f, 0);
        }
        else
            res = deserialize_buffer(got, enc, f, int(r.choose(3)));
        r.ev("decode %s as %s from %s: %s", o->name, fmt_name(f), i ? policy_text(rd).c_str() : "a buffer", res.text().c_str());
        r.sig(mix(mix(rd.trace, hash_bytes(enc.data(), enc.size())), f));
        if (res.ok())
        {
            Walk w = got.walk();
            if (!w.bad_utf8.empty())
                fail("invalid-text-accepted", "%s as %s from %s: %s handed to the application; input %s", o->name, fmt_name(f), i ? policy_text(rd).c_str() : "a buffer", w.bad_utf8.c_str(), f == JSON ? quote(enc, 300).c_str() : hex(enc, 200).c_str());
            if (must_reject && !damaged) fail("invalid-text-altered", "%s as %s from %s: input with text that is not UTF-8 was accepted (with other text)", o->name, fmt_name(f), i ? policy_text(rd).c_str() : "a buffer");
        }
        else if (!must_reject && !damaged && f != JSON)
            fail("valid-text-rejected", "%s as %s from %s: all text is valid UTF-8, decode says %s; input %s", o->name, fmt_name(f), i ? policy_text(rd).c_str() : "a buffer", res.text().c_str(), hex(enc, 200).c_str());
        else if (!must_reject && !damaged && !strncmp(o->name, "simt", 4))
            fail("valid-text-rejected", "%s as %s from %s: all text is valid UTF-8, decode says %s; input %s", o->name, fmt_name(f), i ? policy_text(rd).c_str() : "a buffer", res.text().c_str(), quote(enc, 300).c_str());
    }
    r.nontrivial = hits > 0;
    r.sample     = strf("decode %s as %s, %zu bytes, %u texts replaced%s%s", o->name, fmt_name(f), enc.size(), hits, must_reject ? ", not UTF-8" : "", damaged ? ", damaged" : "");
}
static Reg p11({"P11", [](Run &r) { lib_world(r, w_p11); }, 120000, 30000000, 40, 3000,
                "one run = one message whose texts carry marks that are replaced in the encoded data by valid or invalid UTF-8 (raw bytes or JSON escapes, all shortest ill-formed classes), optionally with further damage, decoded from a buffer and a fragmenting reader; or one message holding invalid text that is serialized; non-trivial = at least one text was replaced or invalid",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document bytes, delivery)", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P16
void evo_project(const Msg &from, Msg &to); // evo_map.cpp
static void w_p16(Run &r)
{
    static const char *const top[] = {"sime.New", "sime.Old", "sime.Older", "sime.Oldest"};
    static const char *const in[]  = {"sime.InnerNew", "sime.InnerOld"};
    bool inner                     = r.choose(6) == 5;
    const Ops &from                = inner ? ops(in[r.choose(2)]) : r.choose(3) ? ops(top[0]) : ops(top[r.choose(4)]);
    const Ops &to                  = inner ? ops(in[r.choose(2)]) : ops(top[r.choose(4)]);
    Fmt f                          = Fmt(r.choose(3));
    Msg m                          = gen_msg(r, from, false, 4, 60);
    std::string s                  = intact_stream(r, m, f, r.coin(3, 4));
    Msg want(to);
    evo_project(m, want);
    auto wt = want.text();
    r.ev("%s -> %s as %s, %zu bytes: %s", from.name, to.name, fmt_name(f), s.size(), f == JSON ? quote(s, 300).c_str() : hex(s, 150).c_str());
    for (int i = 0; i < 2; i++)
    {
        Msg got(to);
        SimReader rd;
        rd.set(s);
        Res res;
        if (i)
        {
            draw_policy(r, rd, s.size());
            res = deserialize_reader(got, rd, f, int(r.choose(4) == 3));
        }
        else
            res = deserialize_buffer(got, s, f, int(r.choose(4)));
        r.sig(mix(rd.trace, hash_bytes(s.data(), s.size())));
        const char *d = i ? "reader" : "buffer";
        if (!res.ok()) fail("foreign-rejected", "%s node's message as %s is rejected by a %s node (%s): %s; data %s", from.name, fmt_name(f), to.name, d, res.text().c_str(), f == JSON ? quote(s, 300).c_str() : hex(s, 200).c_str());
        auto gt = got.text();
        if (gt != wt) fail("foreign-differs", "%s node's message as %s read by a %s node (%s): expected %s, got %s", from.name, fmt_name(f), to.name, d, clip(wt).c_str(), clip(gt).c_str());
    }
    // and the answer travels back
    Fmt g           = Fmt(r.choose(3));
    std::string ans = intact_stream(r, want, g, r.choose(2));
    Msg back(from), wback(from);
    evo_project(want, wback);
    // also with NaN and infinity in JSON
    {
        SimReader rd;
        rd.set(ans);
        draw_policy(r, rd, ans.size());
        Res res = deserialize_reader(back, rd, g, 0);
        if (!res.ok()) fail("foreign-rejected", "%s node's answer as %s is rejected by a %s node: %s", to.name, fmt_name(g), from.name, res.text().c_str());
        if (back.text() != wback.text()) fail("foreign-differs", "%s node's answer as %s read by a %s node: expected %s, got %s", to.name, fmt_name(g), from.name, clip(wback.text()).c_str(), clip(back.text()).c_str());
    }
    r.nontrivial = &from != &to;
    r.sample     = strf("%s -> %s as %s, %zu bytes", from.name, to.name, fmt_name(f), s.size());
}
static Reg p16({"P16", [](Run &r) { lib_world(r, w_p16, true); }, 100000, 30000000, 40, 3000,
                "one run = one exchange between nodes of two schema versions: a message of one version, with its fields re-ordered, split and mixed with unknown fields of every kind (protobuf) or re-laid out with unknown members (JSON), decoded by the other version from a buffer and a fragmenting reader and compared with the field-by-field projection, then answered back; non-trivial = the versions differ",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document bytes, delivery)", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P17
struct LimField
{
    const char *type, *name;
    uint32_t num;
    char kind; // s string, b bytes, i varint, f fixed32, d double, o bool, m message
    uint32_t ms, mc;
    bool packed;
    uint32_t kids; // number of the recursive field of the message
};
static const LimField LIM[] = {
#include "lims.inc"
};
static std::string b64(const std::string &s)
{
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3)
    {
        uint32_t v = uint32_t((unsigned char)s[i]) << 16 | (i + 1 < s.size() ? uint32_t((unsigned char)s[i + 1]) << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0);
        o += t[v >> 18 & 63];
        o += t[v >> 12 & 63];
        o += i + 1 < s.size() ? t[v >> 6 & 63] : '=';
        o += i + 2 < s.size() ? t[v & 63] : '=';
    }
    return o;
}
static int wt_of(char k) { return k == 's' || k == 'b' || k == 'm' ? 2 : k == 'f' ? 5 : k == 'd' ? 1 : 0; }
// one element: wire payload (with its length if length delimited) / JSON text
static std::string pb_elem(Run &r, const LimField &l, size_t size)
{
    std::string s;
    switch (l.kind)
    {
    case 's':
    case 'b':
        put_varint(s, size);
        s.append(size, 'a');
        return s;
    case 'm': put_varint(s, 0); return s;
    case 'f': return std::string(4, char(r.choose(256)));
    case 'd': return std::string(8, char(r.choose(256)));
    case 'o': return std::string(1, char(r.choose(2)));
    default: put_varint(s, r.choose(2) ? r.choose(128) : r.choose(0x7fffffff)); return s;
    }
}
static std::string json_elem(Run &r, const LimField &l, size_t size)
{
    switch (l.kind)
    {
    case 's':
    {
        if (r.choose(3) == 2)
        {
            std::string s = "\"";
            for (size_t i = 0; i < size; i++) s += i % 2 ? "\\u0041" : "\\n";
            return s + "\"";
        }
        return "\"" + std::string(size, 'a') + "\"";
    }
    case 'b': return "\"" + b64(std::string(size, char(r.choose(256)))) + "\"";
    case 'm': return l.type[4] == '2' ? "{\"s255\":\"\"}" : "{}";
    case 'o': return r.choose(2) ? "true" : "false";
    case 'd': return "0.5";
    default: return strf("%u", r.choose(100000));
    }
}
static void w_p17(Run &r)
{
    const LimField &l = LIM[r.choose(sizeof LIM / sizeof *LIM)];
    const Ops &o      = ops(l.type);
    Fmt f             = Fmt(r.choose(3));
    uint32_t mode     = r.choose(5);
    auto judge_store  = [&](const Msg &got, const char *where)
    {
        Walk w = got.walk();
        if (!w.over_limit.empty()) fail("limit-exceeded", "%s as %s (%s): after decoding, %s is stored", o.name, fmt_name(f), where, w.over_limit.c_str());
    };
    if (mode == 0)
    {
        // within the limits: always accepted, whatever the layout
        Msg m         = gen_msg(r, o, false, 3, 80);
        std::string s = intact_stream(r, m, f, r.choose(2));
        auto t        = m.text();
        for (int i = 0; i < 2; i++)
        {
            Msg got(o);
            SimReader rd;
            rd.set(s);
            if (i) draw_policy(r, rd, s.size());
            Res res = i ? deserialize_reader(got, rd, f, 0) : deserialize_buffer(got, s, f, int(r.choose(3)));
            if (!res.ok() || got.text() != t)
                fail("within-limit-rejected", "%s as %s: a message within all limits decodes as %s; data %s", o.name, fmt_name(f), res.text().c_str(), f == JSON ? quote(s, 300).c_str() : hex(s, 200).c_str());
            r.sig(mix(rd.trace, hash_bytes(s.data(), s.size())));
        }
        count("probe:within-limit");
        r.nontrivial = m.walk().limited > 0;
        r.sample     = strf("within: %s as %s, %zu bytes", o.name, fmt_name(f), s.size());
        return;
    }
    if (mode == 4)
    {
        // the sending side: a value beyond a limit is never sent
        Gen g(r);
        gen_profile(r, g, false);
        g.depth  = 3;
        g.budget = 60;
        g.exceed = r.choose(4) ? 1 + r.choose(20) : 0;
        Msg m(o);
        o.gen(m.p, g);
        Walk w     = m.walk();
        bool over  = !w.over_limit.empty();
        auto judge = [&](const Res &res, const char *how)
        {
            r.ev("serialize to a %s: %s", how, res.text().c_str());
            if (over && res.ok()) fail("over-limit-sent", "%s as %s to a %s: %s is serialized", o.name, fmt_name(f), how, w.over_limit.c_str());
            if (!over && !res.ok()) fail("within-limit-rejected", "%s as %s to a %s: a message within all limits is refused: %s", o.name, fmt_name(f), how, res.text().c_str());
        };
        SimWriter sw;
        judge(serialize_writer(m, sw, f), "writer");
        for (int kind = 0; kind < 4; kind++)
        {
            std::string s;
            judge(serialize_string(m, s, f, kind), "container");
        }
        count(over ? "probe:send-over-limit" : "probe:send-within-limit");
        r.nontrivial = w.limited > 0;
        r.sig(mix(hash_bytes(w.out.data(), w.out.size()), f));
        r.sample = strf("send: %s as %s, %s", o.name, fmt_name(f), over ? w.over_limit.c_str() : "within the limits");
        return;
    }
    // one field at or beyond its limit
    bool use_count = l.mc && (!l.ms || r.choose(2));
    uint32_t lim   = use_count ? l.mc : l.ms;
    uint32_t over  = (uint32_t[]){0, 1, 2, 3, 10, 1000}[r.choose(6)];
    uint32_t n     = mode == 3 ? lim + 1 : lim + over; // count or size
    bool expect_ok = n <= lim && mode != 3;
    std::string s, tail;
    if (f != JSON)
    {
        bool packed_form = l.packed && r.choose(2);
        auto one         = [&](size_t size)
        {
            std::string x;
            put_varint(x, l.num << 3 | uint32_t(wt_of(l.kind)));
            return x + pb_elem(r, l, size);
        };
        if (mode == 3)
        {
            // a peer that never stops
            if (!use_count)
            {
                put_varint(s, l.num << 3 | 2);
                put_varint(s, r.choose(2) ? 0x7fffffff : 0x10000000 + r.choose(0x7fffffff));
                tail = "a";
            }
            else if (packed_form)
            {
                put_varint(s, l.num << 3 | 2);
                put_varint(s, r.choose(2) ? 0x7fffffff : 0x10000000 + r.choose(0x7fffffff));
                tail = pb_elem(r, l, 1);
            }
            else
                tail = one(l.ms ? r.choose(l.ms + 1) : 1);
            if (f == PBD)
            {
                std::string x;
                put_varint(x, 0xffffffffu);
                s = x + s;
            }
        }
        else
        {
            std::string add;
            if (!use_count)
            {
                uint32_t k = l.mc ? 1 + r.choose(l.mc) : 1, bad = r.choose(k);
                for (uint32_t i = 0; i < k; i++) add += one(i == bad ? n : r.choose(l.ms + 1));
            }
            else
            {
                uint32_t left = n;
                while (left)
                {
                    uint32_t k = packed_form ? std::min(left, 1 + r.choose(left)) : 1;
                    if (packed_form)
                    {
                        std::string run;
                        for (uint32_t i = 0; i < k; i++) run += pb_elem(r, l, 0);
                        put_varint(add, l.num << 3 | 2);
                        put_varint(add, run.size());
                        add += run;
                    }
                    else
                        add += one(l.ms ? r.choose(l.ms + 1) : r.choose(5));
                    left -= k;
                }
            }
            // among the other fields of an ordinary message
            Msg m           = gen_msg(r, o, false, 2, 20);
            std::string enc = encode(m, PB), rest;
            std::vector<RawField> fs;
            split_pb(enc, fs);
            for (auto &x : fs)
                if (x.num != l.num) rest += enc.substr(x.begin, x.end - x.begin);
            s = r.choose(2) ? add + rest : rest + add;
            if (r.choose(4) == 3) s = mutate_pb(r, s, true, true);
            // inside nested messages
            uint32_t wraps = r.choose(3) == 2 ? 1 + r.choose(3) : 0;
            for (uint32_t i = 0; i < wraps; i++)
            {
                std::string x;
                put_varint(x, l.kids << 3 | 2);
                s = x + delimit(s);
            }
            if (f == PBD) s = delimit(s);
        }
    }
    else
    {
        std::string v;
        bool arr = l.mc != 0;
        if (mode == 3)
        {
            s = strf("{\"%s\":", l.name);
            if (r.choose(2)) s = "{\"pre\":\"x\"," + s.substr(1);
            if (!use_count)
            {
                s += arr ? "[\"" : "\"";
                if (l.kind == 'b')
                    tail = "AAAA";
                else
                    tail = (const char *[]){"a", "\\n", "\\u00e9", "\xc3\xa9"}[r.choose(4)];
            }
            else
            {
                s += "[";
                tail = json_elem(r, l, l.ms ? r.choose(l.ms + 1) : 1) + (r.choose(2) ? "," : ", ");
            }
        }
        else
        {
            if (use_count)
            {
                v = "[";
                for (uint32_t i = 0; i < n; i++) v += (i ? "," : "") + json_elem(r, l, l.ms ? r.choose(l.ms + 1) : r.choose(4));
                v += "]";
            }
            else if (arr)
            {
                uint32_t k = 1 + r.choose(l.mc), bad = r.choose(k);
                v = "[";
                for (uint32_t i = 0; i < k; i++) v += (i ? "," : "") + json_elem(r, l, i == bad ? n : r.choose(l.ms + 1));
                v += "]";
            }
            else
                v = json_elem(r, l, n);
            s = strf("{%s\"%s\":%s%s%s}", r.choose(2) ? "\"pre\":\"p\"," : "", l.name, r.choose(2) ? " " : "", v.size() < 1500 ? v.c_str() : "", "@");
            size_t at = s.rfind('@');
            s.replace(at, 1, v.size() < 1500 ? "" : v);
            uint32_t wraps = r.choose(3) == 2 ? 1 + r.choose(3) : 0;
            for (uint32_t i = 0; i < wraps; i++) s = "{\"kids\":[" + s + "]}";
        }
    }
    r.ev("%s.%s as %s, limit %u, %s %u: %s", o.name, l.name, fmt_name(f), lim, mode == 3 ? "endless" : use_count ? "count" : "size", n, f == JSON ? quote(s, 200).c_str() : hex(s, 120).c_str());
    r.nontrivial = true;
    r.sample     = strf("%s.%s as %s, limit %u, %s %u", o.name, l.name, fmt_name(f), lim, mode == 3 ? "endless" : use_count ? "count" : "size", n);
    if (mode == 3)
    {
        count("fault:endless-peer");
        SimReader rd;
        rd.set(s);
        draw_policy(r, rd, s.size());
        rd.endless = true;
        rd.tail    = tail;
        Msg got(o);
        // a limit on the data of the simulated peer, far above what may be taken
        size_t per   = tail.size() + 8;
        size_t bound = s.size() + per * (size_t(lim) * 2 + 8) + 2048;
        rd.throw_at_pos = bound + (1u << 20);
        Res res      = deserialize_reader(got, rd, f, 0);
        r.sig(mix(rd.trace, hash_bytes(s.data(), s.size())) ^ hash_bytes(tail.data(), tail.size()));
        if (res.ok()) fail("over-limit-accepted", "%s.%s as %s: an endless value with limit %u is accepted", o.name, l.name, fmt_name(f), lim);
        if (rd.pos > bound)
            fail("endless-consumption", "%s.%s as %s (limit %u): %zu bytes were taken from a peer that never stops (bound %zu): %s", o.name, l.name, fmt_name(f), lim, rd.pos, bound, res.text().c_str());
        judge_store(got, "endless peer");
        return;
    }
    count(expect_ok ? "probe:at-limit" : "probe:over-limit");
    for (int i = 0; i < 2; i++)
    {
        Msg got(o);
        SimReader rd;
        rd.set(s);
        if (i) draw_policy(r, rd, s.size());
        Res res = i ? deserialize_reader(got, rd, f, 0) : deserialize_buffer(got, s, f, int(r.choose(3)));
        r.sig(mix(rd.trace, hash_bytes(s.data(), s.size())));
        r.ev("%s: %s", i ? policy_text(rd).c_str() : "buffer", res.text().c_str());
        judge_store(got, i ? policy_text(rd).c_str() : "buffer");
        if (expect_ok && !res.ok()) fail("within-limit-rejected", "%s.%s as %s: %s %u at the limit %u: %s; data %s", o.name, l.name, fmt_name(f), use_count ? "count" : "size", n, lim, res.text().c_str(), f == JSON ? quote(s, 300).c_str() : hex(s, 200).c_str());
        if (!expect_ok && res.ok()) fail("over-limit-accepted", "%s.%s as %s: %s %u over the limit %u is accepted; data %s", o.name, l.name, fmt_name(f), use_count ? "count" : "size", n, lim, f == JSON ? quote(s, 300).c_str() : hex(s, 200).c_str());
    }
}
static Reg p17({"P17", [](Run &r) { lib_world(r, w_p17); }, 120000, 30000000, 40, 3000,
                "one run = one document for a schema with declared limits: within all limits, one field at or beyond its size or count limit (alone or among other fields, packed or not, split into runs, nested), or a peer that keeps sending one field's value without end, or a message within or beyond its limits that is serialized; decoded from a buffer and a fragmenting reader; non-trivial = a limited field is present",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document bytes, delivery)", "reader/writer callback invocations"});
} // namespace sim
