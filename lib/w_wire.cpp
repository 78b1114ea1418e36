// P18: every legal encoding of a message means what the reference implementation says.
#include "gpb.hpp"
#include "world.hpp"
namespace sim
{
static const std::vector<const Ops *> &open_types() // no declared limits, no storage of fixed size
{
    static std::vector<const Ops *> v;
    if (v.empty())
    {
        heap::Pause pause;
        for (auto &o : all_ops())
        {
            std::string f = o.proto, n = o.name;
            if (!o.gpb || f == "fixed.proto" || f == "limits.proto" || f == "lim2.proto" || f == "lim3.proto" || n == "simo.MsgLevel") continue;
            v.push_back(&o);
        }
    }
    return v;
}
static void w_p18(Run &r)
{
    auto &v      = open_types();
    const Ops &o = *v[r.choose(uint32_t(v.size()))];
    // a peer that sends the parts of one message one after the other
    uint32_t parts = 1 + r.choose(3);
    std::string wire;
    for (uint32_t i = 0; i < parts; i++)
    {
        Gen g(r);
        gen_profile(r, g, false);
        g.depth  = 4;
        g.budget = 40;
        Msg m(o);
        o.gen(m.p, g);
        if (g.empty_required) throw Discard(); // see the known finding of P14
        wire += encode(m, PB);
    }
    if (parts > 1) count("wire:parts-concatenated");
    wire = gpb_rewrite(r, o, wire);
    std::string want, got, err;
    if (!gpb_meaning(o, wire, want, &err)) fail("harness", "%s: the reference refuses an encoding made for it: %s; %s", o.name, err.c_str(), hex(wire, 300).c_str());
    bool delim    = r.choose(2);
    bool buffer   = r.choose(3) == 0;
    std::string s = delim ? delimit(wire) : wire;
    Msg m(o);
    SimReader rd;
    rd.set(s);
    if (!buffer) draw_policy(r, rd, s.size());
    Fmt f   = delim ? PBD : PB;
    Res res = buffer ? deserialize_buffer(m, s, f, int(r.choose(3))) : deserialize_reader(m, rd, f, int(r.choose(2)));
    r.ev("%s in %u parts as %s, %s: %s", o.name, parts, fmt_name(f), buffer ? "buffer" : policy_text(rd).c_str(), hex(wire, 300).c_str());
    r.ev("reference: %s", clip(want).c_str());
    r.sig(mix(rd.trace, hash_bytes(s.data(), s.size())));
    r.ticks += rd.calls + 1;
    r.nontrivial = wire.size() > 1;
    r.sample     = strf("%s in %u parts, %zu bytes as %s", o.name, parts, wire.size(), fmt_name(f));
    if (!res.ok()) fail("legal-encoding-refused", "%s: an encoding that the reference accepts is refused: %s; %s; reference: %s", o.name, res.text().c_str(), hex(wire, 300).c_str(), clip(want).c_str());
    std::string again = encode(m, PB);
    if (!gpb_meaning(o, again, got, &err)) fail("reencoding-refused", "%s: the reference refuses the message re-encoded: %s; %s", o.name, err.c_str(), hex(again, 300).c_str());
    if (got != want)
    {
        size_t d = 0;
        while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
        size_t from = d > 60 ? d - 60 : 0;
        fail("different-meaning", "%s: the reference reads ...%s, here it is ...%s; %s", o.name, want.substr(from, 200).c_str(), got.substr(from, 200).c_str(), hex(wire, 300).c_str());
    }
}
static Reg p18({"P18", [](Run &r) { lib_world(r, w_p18); }, 80000, 30000000, 40, 3000,
                "one run = one to three generated messages of one type sent one after the other as the parts of one message, rewritten into another legal encoding (records in any order, sub-messages split, packed and unpacked runs, overlong varints, map items with omitted, repeated or reversed members and repeated keys, several members of a oneof, unknown fields), delivered plain or delimited from a buffer or a fragmenting reader; the decoded message must mean what the reference implementation reads; non-trivial = more than one byte",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (encoded bytes, delivery)", "reader callback invocations"});
static void w_p19(Run &r)
{
    auto &v      = open_types();
    const Ops &o = *v[r.choose(uint32_t(v.size()))];
    Gen g(r);
    gen_profile(r, g, false);
    g.depth  = 4;
    g.budget = 40;
    Msg m0(o);
    o.gen(m0.p, g);
    if (g.empty_required) throw Discard(); // see the known finding of P14
    std::string doc = gpb_rewrite_json(r, o, encode(m0, JSON));
    std::string wire, want, got, err;
    if (!gpb_json_to_wire(o, doc, wire, &err)) fail("reference-refuses", "%s: the reference refuses a document made from what the library writes: %s; %s", o.name, err.c_str(), quote(doc, 500).c_str());
    if (!gpb_meaning(o, wire, want, &err)) fail("reference-refuses", "%s: the reference refuses a document made from what the library writes: %s; %s", o.name, err.c_str(), quote(doc, 500).c_str());
    std::string said, pb = encode(m0, PB);
    if (!gpb_meaning(o, pb, said, &err)) fail("reference-refuses", "%s: the reference refuses what the library writes: %s; %s", o.name, err.c_str(), hex(pb, 300).c_str());
    if (said != want)
    {
        size_t d = 0;
        while (d < said.size() && d < want.size() && said[d] == want[d]) d++;
        size_t from = d > 60 ? d - 60 : 0;
        fail("document-says-something-else", "%s: the message is ...%s, to the reference its document says ...%s; %s", o.name, said.substr(from, 200).c_str(), want.substr(from, 200).c_str(), quote(doc, 600).c_str());
    }
    bool buffer = r.choose(3) == 0;
    Msg m(o);
    SimReader rd;
    rd.set(doc);
    if (!buffer) draw_policy(r, rd, doc.size());
    Res res = buffer ? deserialize_buffer(m, doc, JSON, int(r.choose(3))) : deserialize_reader(m, rd, JSON, int(r.choose(2)));
    r.ev("%s, %s: %s", o.name, buffer ? "buffer" : policy_text(rd).c_str(), quote(doc, 500).c_str());
    r.ev("reference: %s", clip(want).c_str());
    r.sig(mix(rd.trace, hash_bytes(doc.data(), doc.size())));
    r.ticks += rd.calls + 1;
    r.nontrivial = doc.size() > 2;
    r.sample     = strf("%s, %zu bytes", o.name, doc.size());
    if (!res.ok()) fail("legal-document-refused", "%s: a document that the reference accepts is refused: %s; %s", o.name, res.text().c_str(), quote(doc, 600).c_str());
    std::string again = encode(m, PB);
    if (!gpb_meaning(o, again, got, &err)) fail("reencoding-refused", "%s: the reference refuses the message re-encoded: %s; %s", o.name, err.c_str(), hex(again, 300).c_str());
    if (got != want)
    {
        size_t d = 0;
        while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
        size_t from = d > 60 ? d - 60 : 0;
        fail("different-meaning", "%s: the reference reads ...%s, here it is ...%s; %s", o.name, want.substr(from, 200).c_str(), got.substr(from, 200).c_str(), quote(doc, 600).c_str());
    }
}
static Reg p19({"P19", [](Run &r) { lib_world(r, w_p19); }, 100000, 30000000, 40, 3000,
                "one run = one generated message written as JSON by the library and rewritten into another document of the same meaning (members in any order under either name, numbers as text, with exponent or fraction, in other formats, enums by number or alias, null for absent members, escapes in text, keys and names, URL-safe base64, white space), delivered from a buffer or a fragmenting reader; to the reference implementation the document must say what the message means, and the message decoded from it must mean the same; non-trivial = not an empty object",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document bytes, delivery)", "reader callback invocations"});
} // namespace sim
