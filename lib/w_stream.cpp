// P01-P04: byte delivery, framing, truncation.
#include "world.hpp"
namespace sim
{
static std::string pb_workload(Run &r, const Msg &m, Fmt f, bool allow_damage, bool *damaged = nullptr)
{
    std::string body = encode(m, PB);
    if (r.coin(1, 3)) body = mutate_pb(r, body, true, true);
    std::string s = f == PBD ? delimit(body) : body;
    bool d        = allow_damage && r.coin(1, 3);
    if (d) s = damage(r, s);
    if (damaged) *damaged = d;
    return s;
}
static void compare(Run &r, const char *prop, const Ops &o, const Msg &base, const std::string &stream, Fmt f, bool damaged)
{
    Msg a(base);
    Res ra = deserialize_buffer(a, stream, f, 0);
    r.ev("buffer decode: %s", ra.text().c_str());
    if (ra.ok() && ra.ret > stream.size()) fail("consumed-too-much", "%s: buffer decode of %zu bytes reports %zu consumed", o.name, stream.size(), ra.ret);
    // other contiguous overloads agree with the first
    int kind = int(r.choose(4));
    if (kind && (kind != 3 || base.text() == Msg(o).text()))
    {
        Msg c(base);
        Res rc = deserialize_buffer(c, stream, f, kind);
        if (rc.ok() != ra.ok() || (ra.ok() && (c.text() != a.text() || (kind != 3 && rc.ret != ra.ret))))
            fail("overload-mismatch", "%s %s: container overload %d gives %s, pointer overload %s", o.name, fmt_name(f), kind, rc.text().c_str(), ra.text().c_str());
    }
    uint32_t n = 1 + r.choose(3);
    for (uint32_t i = 0; i < n; i++)
    {
        SimReader rd;
        rd.set(stream);
        draw_policy(r, rd, stream.size());
        Msg b(base);
        int k  = base.text() == Msg(o).text() ? int(r.choose(4) == 3) : 0;
        Res rb = deserialize_reader(b, rd, f, k);
        r.ev("reader decode (%s, %lu reads): %s", policy_text(rd).c_str(), rd.calls, rb.text().c_str());
        r.sig(mix(mix(rd.trace, hash_bytes(o.name, strlen(o.name))), uint64_t(f) << 8 | rb.out));
        r.nontrivial |= rd.shorts > 0;
        if (ra.ok() != rb.ok())
            fail(ra.ok() ? "reader-rejects" : "reader-accepts", "%s as %s, %zu bytes%s, delivery: %s: buffer gives %s, reader gives %s; data %s", o.name, fmt_name(f),
                 stream.size(), damaged ? " (damaged)" : "", policy_text(rd).c_str(), ra.text().c_str(), rb.text().c_str(),
                 f == JSON ? quote(stream, 300).c_str() : hex(stream, 150).c_str());
        if (!ra.ok()) continue;
        if (k == 0 && ra.ret != rb.ret)
            fail("consumed-differs", "%s as %s, delivery: %s: buffer reports %zu bytes consumed, reader %zu", o.name, fmt_name(f), policy_text(rd).c_str(), ra.ret, rb.ret);
        auto ta = a.text(), tb = b.text();
        if (ta != tb)
            fail("value-differs", "%s as %s, delivery: %s: buffer gives %s, reader gives %s", o.name, fmt_name(f), policy_text(rd).c_str(), clip(ta).c_str(), clip(tb).c_str());
        (void)prop;
    }
    count(ra.ok() ? "outcome:accepted" : "outcome:rejected");
    r.sample = strf("%s as %s, %zu bytes%s -> %s", o.name, fmt_name(f), stream.size(), damaged ? " damaged" : "", ra.text().substr(0, 60).c_str());
}

static Reg p01({"P01",
                [](Run &r)
                {
                    lib_world(r,
                              [](Run &r)
                              {
                                  const Ops &o = pick_any(r);
                                  Fmt f        = draw_pb(r);
                                  Msg m        = gen_msg(r, o, false);
                                  bool damaged;
                                  std::string s = pb_workload(r, m, f, true, &damaged);
                                  if (f == PBD && r.choose(2)) s += std::string(r.choose(20), '\x08'); // the next traffic on the stream
                                  Msg base(o);
                                  if (r.coin(1, 6)) base = gen_msg(r, o, false, 2, 15); // merge into a used object
                                  r.ev("%s as %s: %zu bytes %s", o.name, fmt_name(f), s.size(), hex(s, 120).c_str());
                                  compare(r, "P01", o, base, s, f, damaged);
                              }, true);
                },
                120000, 20000000, 40, 3000,
                "one run = one message value of one of the schema's types, encoded by the real encoder, optionally re-ordered / extended with unknown fields / damaged, decoded from a contiguous buffer and through 1-3 differently fragmenting readers; non-trivial = at least one read returned less than asked while more data followed",
                LIB_REAL, LIB_STUB, LIB_ASSUME,
                "hash of (message type, format, exact sequence of delivered chunk positions, outcome) over all reader decodes of the run", "reader/writer callback invocations"});

static Reg p02({"P02",
                [](Run &r)
                {
                    lib_world(r,
                              [](Run &r)
                              {
                                  const Ops &o  = pick_any(r);
                                  Msg m         = gen_msg(r, o, false);
                                  std::string s = encode(m, JSON);
                                  if (r.coin(2, 3)) s = relayout_json(r, s, r.choose(2), r.choose(2));
                                  if (r.coin(1, 4)) s = std::string(r.choose(300), ' ') + s;
                                  bool damaged = r.coin(1, 3);
                                  if (damaged) s = damage(r, s);
                                  if (r.coin(1, 4)) s += r.choose(2) ? std::string(r.choose(300), '\n') : std::string("{\"x\":1}");
                                  Msg base(o);
                                  if (r.coin(1, 6)) base = gen_msg(r, o, false, 2, 15);
                                  r.ev("%s: %zu bytes %s", o.name, s.size(), quote(s, 300).c_str());
                                  compare(r, "P02", o, base, s, JSON, damaged);
                              }, true);
                },
                120000, 20000000, 40, 3000,
                "one run = one message value encoded as JSON by the real encoder, optionally re-laid out (white space, member order, unknown members, escapes) and damaged, decoded from a contiguous buffer and through 1-3 differently fragmenting readers; non-trivial = at least one read returned less than asked while more data followed",
                LIB_REAL, LIB_STUB, LIB_ASSUME,
                "hash of (message type, exact sequence of delivered chunk positions, outcome) over all reader decodes of the run", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P03
static void w_p03(Run &r)
{
    struct Item
    {
        bool raw;
        std::string bytes;
        Msg want;
        const Ops *as;
    };
    std::vector<Item> items;
    uint32_t n = 1 + r.choose(6);
    std::string wire;
    // sender: one connection, several encoders
    for (uint32_t i = 0; i < n; i++)
    {
        if (r.coin(1, 5))
        {
            std::string raw;
            uint32_t k = 1 + r.choose(12);
            for (uint32_t j = 0; j < k; j++) raw += char(r.choose(256));
            wire += raw;
            items.push_back({true, raw, Msg(ops("simt.Empty")), nullptr});
            continue;
        }
        const Ops &o = pick_any(r);
        Msg m        = gen_msg(r, o, false, 3, 25);
        std::string fr;
        uint32_t how = r.choose(5);
        if (how == 0)
        {
            SimWriter w;
            auto res = serialize_writer(m, w, PBD);
            if (!res.ok()) fail("encode-valid", "writer: %s", res.text().c_str());
            fr = w.out;
            if (res.ret != fr.size()) fail("returned-size", "%s: serialize reports %zu bytes, the writer received %zu", o.name, res.ret, fr.size());
        }
        else if (how == 1)
        {
            auto sz = serialize_size(m, PBD);
            if (!sz.ok()) fail("encode-valid", "size: %s", sz.text().c_str());
            fr.resize(sz.ret);
            std::unique_ptr<char[]> b(new char[sz.ret + 1]);
            auto res = serialize_buffer(m, b.get(), PBD, sz.ret);
            if (!res.ok() || res.ret != sz.ret) fail("returned-size", "%s: predicted %zu, %s", o.name, sz.ret, res.text().c_str());
            fr.assign(b.get(), sz.ret);
        }
        else if (how == 4)
            fr = delimit(mutate_pb(r, encode(m, PB), true, true)); // a newer peer
        else
        {
            auto res = serialize_string(m, fr, PBD, int(r.choose(4)));
            if (!res.ok()) fail("encode-valid", "container: %s", res.text().c_str());
        }
        wire += fr;
        items.push_back({false, fr, std::move(m), &o});
        r.ev("sent %s as a frame of %zu bytes (encoder %u)", o.name, fr.size(), how);
    }
    std::string trailer(r.choose(4), '\x01');
    std::string full = wire + trailer;
    // receiver
    bool by_reader = r.choose(3) != 0;
    SimReader rd;
    rd.set(full);
    draw_policy(r, rd, full.size());
    size_t off = 0;
    Msg reuse(ops("simt.Empty"));
    for (size_t i = 0; i < items.size(); i++)
    {
        auto &it = items[i];
        if (it.raw)
        {
            if (by_reader)
            {
                std::string got(it.bytes.size(), 0);
                for (size_t k = 0; k < got.size();) k += rd.read(&got[k], got.size() - k);
                if (got != it.bytes) fail("next-frame-lost", "raw traffic after item %zu: got %s, sent %s", i, hex(got).c_str(), hex(it.bytes).c_str());
            }
            off += it.bytes.size();
            continue;
        }
        Msg got(*it.as);
        size_t before = rd.pos;
        Res res       = by_reader ? deserialize_reader(got, rd, PBD, 0) : deserialize_buffer(got, std::string_view(full).substr(off), PBD, int(r.choose(3)));
        r.ev("item %zu (%s): %s", i, it.as->name, res.text().c_str());
        if (!res.ok()) fail("frame-rejected", "item %zu of %zu, intact frame of %zu bytes (%s), %s: %s", i, items.size(), it.bytes.size(), it.as->name, by_reader ? "reader" : "buffer", res.text().c_str());
        if (res.ret != it.bytes.size())
            fail("consumed-size", "item %zu (%s): frame has %zu bytes, decode reports %zu (%s)", i, it.as->name, it.bytes.size(), res.ret, by_reader ? "reader" : "buffer");
        off += res.ret;
        if (by_reader && rd.pos - before != it.bytes.size())
            fail(rd.pos - before > it.bytes.size() ? "over-read" : "under-read", "item %zu (%s): frame has %zu bytes, %zu were taken from the reader", i, it.as->name, it.bytes.size(), rd.pos - before);
        auto tg = got.text(), tw = it.want.text();
        if (tg != tw) fail("frame-differs", "item %zu (%s): sent %s got %s", i, it.as->name, clip(tw).c_str(), clip(tg).c_str());
    }
    if (off != wire.size()) fail("position", "stream position %zu, expected %zu", off, wire.size());
    count(by_reader ? "receiver:reader" : "receiver:buffer");
    r.nontrivial = items.size() > 1;
    r.sig(mix(rd.trace, hash_bytes(full.data(), full.size())));
    r.sample = strf("%zu items, %zu bytes, receiver %s (%s)", items.size(), full.size(), by_reader ? "reader" : "buffer", policy_text(rd).c_str());
}
static Reg p03({"P03", [](Run &r) { lib_world(r, w_p03, true); }, 120000, 20000000, 40, 3000,
                "one run = one connection carrying 1-6 delimited frames of arbitrary types (real encoders, some as a newer peer would send them) mixed with raw traffic, read back through one fragmenting reader or by walking a buffer; non-trivial = more than one item on the connection",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (all bytes of the connection, delivery sequence)", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P04
static void w_p04(Run &r)
{
    const Ops &o = pick_any(r);
    Fmt f        = Fmt(r.choose(3));
    Msg m        = gen_msg(r, o, false, 3, 25);
    std::string body;
    if (f == JSON)
    {
        body = encode(m, JSON);
        if (r.choose(2)) body = relayout_json(r, body, r.choose(2), false);
        while (!body.empty() && isspace((unsigned char)body.back())) body.pop_back();
    }
    else
    {
        body = encode(m, PB);
        if (r.choose(2)) body = mutate_pb(r, body, true, false);
        if (f == PBD) body = delimit(body);
    }
    std::vector<RawField> fields;
    if (f == PB && !split_pb(body, fields)) fail("encode-valid", "unparsable output %s", hex(body).c_str());
    std::vector<size_t> cuts;
    if (body.size() <= 20)
        for (size_t i = 0; i < body.size(); i++) cuts.push_back(i);
    else
        for (int i = 0; i < 14; i++)
        {
            switch (r.choose(4))
            {
            case 0: cuts.push_back(body.size() - 1 - r.choose(std::min<uint32_t>(uint32_t(body.size()), 12))); break;
            case 1: cuts.push_back(r.choose(std::min<uint32_t>(uint32_t(body.size()), 12))); break;
            case 2:
                if (!fields.empty())
                {
                    cuts.push_back(fields[r.choose(uint32_t(fields.size()))].begin);
                    break;
                }
                [[fallthrough]];
            default: cuts.push_back(r.choose(uint32_t(body.size())));
            }
        }
    r.ev("%s as %s, %zu bytes: %s", o.name, fmt_name(f), body.size(), f == JSON ? quote(body, 300).c_str() : hex(body, 200).c_str());
    for (size_t cut : cuts)
    {
        std::string part = body.substr(0, cut);
        bool reader      = r.choose(3) != 0;
        bool boundary    = f == PB && cut == 0;
        for (auto &x : fields) boundary |= x.begin == cut;
        SimReader rd;
        rd.set(part);
        if (reader) draw_policy(r, rd, part.size());
        Msg got(o);
        Res res = reader ? deserialize_reader(got, rd, f, 0) : deserialize_buffer(got, part, f, int(r.choose(3)));
        count("fault:end-of-stream");
        r.sig(mix(mix(rd.trace, cut), mix(hash_bytes(body.data(), body.size()), reader)));
        if (f != PB || !boundary)
        {
            if (res.ok())
                fail("truncated-accepted", "%s as %s cut after %zu of %zu bytes is accepted from a %s (%s), value %s; intact data %s", o.name, fmt_name(f), cut, body.size(),
                     reader ? "reader" : "buffer", policy_text(rd).c_str(), clip(got.text(), 300).c_str(), f == JSON ? quote(body, 300).c_str() : hex(body, 150).c_str());
        }
        else
        {
            if (!res.ok()) fail("prefix-rejected", "%s: plain message cut between top-level fields (%zu of %zu) is rejected: %s", o.name, cut, body.size(), res.text().c_str());
            // exactly the complete fields: the same bytes as a complete frame
            Msg want(o);
            Res rw = deserialize_buffer(want, delimit(part), PBD, 0);
            if (!rw.ok() || want.text() != got.text()) fail("prefix-differs", "%s: prefix of complete fields gives %s, as a frame %s (%s)", o.name, clip(got.text()).c_str(), clip(want.text()).c_str(), rw.text().c_str());
            if (res.ret != cut) fail("prefix-consumed", "%s: prefix of %zu bytes, %zu reported consumed", o.name, cut, res.ret);
        }
    }
    r.nontrivial = !cuts.empty();
    r.sample     = strf("%s as %s, %zu bytes, %zu cuts", o.name, fmt_name(f), body.size(), cuts.size());
}
static Reg p04({"P04", [](Run &r) { lib_world(r, w_p04, true); }, 120000, 20000000, 40, 3000,
                "one run = one encoded message (plain, delimited or JSON, optionally with unknown data) ended early at up to 20 positions (every position if it is short; biased to field boundaries and both ends), each prefix decoded from a buffer or a fragmenting reader; non-trivial = at least one cut was judged",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (message bytes, cut positions, delivery sequences)", "reader/writer callback invocations"});
} // namespace sim
