// P14, P15: whole histories - relays over breaking links, journals with crashes.
#include "gpb.hpp"
#include "world.hpp"
namespace sim
{

// encodes through one of the public ways of producing output
static std::string send_encode(Run &r, const Msg &m, Fmt f)
{
    switch (r.choose(4))
    {
    case 0:
    {
        SimWriter w;
        Res x = serialize_writer(m, w, f);
        if (!x.ok()) fail("encode-valid", "serializing a valid %s as %s to a writer failed: %s", m.o->name, fmt_name(f), x.text().c_str());
        return w.out;
    }
    case 1:
    {
        Res s = serialize_size(m, f);
        if (!s.ok()) fail("encode-valid", "size of a valid %s as %s: %s", m.o->name, fmt_name(f), s.text().c_str());
        std::unique_ptr<char[]> b(new char[s.ret ? s.ret : 1]);
        Res x = serialize_buffer(m, b.get(), f, s.ret);
        if (!x.ok() || x.ret != s.ret) fail("encode-valid", "serializing a valid %s as %s to a buffer of %zu: %s", m.o->name, fmt_name(f), s.ret, x.text().c_str());
        return std::string(b.get(), s.ret);
    }
    default:
    {
        std::string out;
        Res x = serialize_string(m, out, f, int(r.choose(4)));
        if (!x.ok()) fail("encode-valid", "serializing a valid %s as %s to a container failed: %s", m.o->name, fmt_name(f), x.text().c_str());
        return out;
    }
    }
}
// ------------------------------------------------------------------ P14
struct Node
{
    bool google;
    std::vector<std::string> inbox; // payload of every message taken over, as received (durable)
    std::vector<std::string> outbox; // payload for the next link
};
// one link: the sender transmits frames of (sequence number, length, payload) over connections that break;
// the receiver decodes while it receives, and acknowledges; acknowledgements get lost as well
static void link_transfer(Run &r, const Ops &o, const std::vector<std::string> &payload, Fmt f, uint32_t &breaks_left, std::vector<Msg> &decoded, std::vector<std::string> &raw, bool google)
{
    size_t acked = 0; // sender's knowledge
    size_t next  = 0; // receiver: next expected message (durable)
    Msg reuse(o);
    bool use_reuse = r.choose(4) == 3;
    for (uint32_t conn = 0; acked < payload.size(); conn++)
    {
        if (conn > 64) fail("no-progress", "%s as %s: connections no longer break, yet messages are not delivered", o.name, fmt_name(f));
        // everything the sender puts on this connection: retransmission of all that is not acknowledged
        std::string wire;
        for (size_t i = acked; i < payload.size(); i++)
        {
            put_varint(wire, i);
            if (f != PBD) put_varint(wire, payload[i].size());
            wire += payload[i];
        }
        SimReader rd;
        rd.set(wire);
        draw_policy(r, rd, wire.size());
        bool breaks = breaks_left && r.choose(2);
        size_t cut  = wire.size();
        bool quiet  = false;
        if (breaks)
        {
            breaks_left--;
            cut   = r.choose(uint32_t(wire.size()) + 1);
            quiet = r.choose(2); // the connection ends: end of file, or an error
            if (quiet)
                rd.set(std::string_view(wire).substr(0, cut));
            else
            {
                rd.throw_at_pos = cut;
                rd.throw_kind   = int(r.choose(N_THROW));
            }
            count(quiet ? "fault:connection-ends" : "fault:connection-error");
            r.ev("connection %u breaks after %zu of %zu bytes (%s)", conn, cut, wire.size(), quiet ? "end of file" : "error");
        }
        // receiver
        size_t got_acks = acked;
        bool broken     = false;
        auto take       = [&](void *p, size_t n) -> bool
        {
            size_t have = 0;
            while (have < n)
            {
                size_t g = 0;
                try
                {
                    g = rd.read((char *)p + have, n - have);
                }
                catch (const IoFault &)
                {
                    return false;
                }
                catch (const IoToken &)
                {
                    return false;
                }
                catch (int)
                {
                    return false;
                }
                if (!g) return false;
                have += g;
            }
            return true;
        };
        auto take_varint = [&](uint64_t &v) -> bool
        {
            v = 0;
            for (int s = 0;; s += 7)
            {
                unsigned char b;
                if (!take(&b, 1)) return false;
                v |= uint64_t(b & 127) << s;
                if (b < 128) return true;
            }
        };
        while (!broken && got_acks < payload.size())
        {
            uint64_t seq, len = 0;
            if (!take_varint(seq) || (f != PBD && !take_varint(len)))
            {
                broken = true;
                break;
            }
            if (seq >= payload.size()) fail("lost-sync", "%s as %s: the receiver is out of step with the stream: message number %lu of %zu", o.name, fmt_name(f), seq, payload.size());
            size_t start = rd.pos;
            Msg fresh(o);
            Msg &m = use_reuse ? reuse : fresh;
            if (use_reuse) o.reset(m.p);
            Res x;
            std::string body;
            bool ended = false;
            if (f == PBD)
            {
                x     = deserialize_reader(m, rd, PBD, 0);
                ended = rd.threw || rd.pos >= cut;
            }
            else if (f == PB || r.choose(2))
            {
                body.resize(len);
                if (!take(body.data(), len))
                {
                    broken = true;
                    break;
                }
                x = deserialize_buffer(m, body, f, int(r.choose(3)));
            }
            else
            {
                // JSON while it arrives; the length in the header keeps the decoder from reading ahead
                size_t stop = start + len;
                SimReader part(rd);
                part.set(rd.data.substr(0, std::min(stop, rd.data.size())));
                if (part.throw_at_pos >= stop) part.throw_at_pos = ~size_t(0);
                x     = deserialize_reader(m, part, JSON, 0);
                ended = part.threw || stop > cut;
                rd.pos = stop;
                rd.threw |= part.threw;
            }
            bool complete = f == PBD ? rd.pos == start + payload[seq].size() && start + payload[seq].size() <= cut : start + len <= cut;
            if (!x.ok())
            {
                if (complete && !(ended && f == PBD && !(start + payload[seq].size() <= cut)))
                    fail("message-refused", "%s as %s, message %lu arrived completely (%s) and is refused: %s; %s", o.name, fmt_name(f), seq, policy_text(rd).c_str(), x.text().c_str(), f == JSON ? quote(payload[seq], 300).c_str() : hex(payload[seq], 150).c_str());
                broken = true;
                break;
            }
            if (!complete && start + payload[seq].size() > cut)
                fail("torn-message-accepted", "%s as %s: %zu of %zu bytes arrived before the connection broke, the message is accepted", o.name, fmt_name(f), cut - std::min(cut, start), payload[seq].size());
            if (f == PBD && x.ret != payload[seq].size()) fail("consumed-differs", "%s: delimited message of %zu bytes, deserialize reports %zu", o.name, payload[seq].size(), x.ret);
            // take over, unless it is a retransmission of one taken over before
            if (seq == next)
            {
                decoded.push_back(m);
                raw.push_back(payload[seq]);
                next++;
            }
            else if (seq < next)
                count("probe:duplicate-dropped");
            else
                fail("out-of-order", "%s: message %lu arrives, %zu is expected", o.name, seq, next);
            // acknowledgement
            if (breaks_left && r.choose(4) == 3)
            {
                breaks_left--;
                count("fault:acknowledgement-lost");
                r.ev("the acknowledgement of message %lu is lost", seq);
                broken = true;
            }
            else
                got_acks = std::max<size_t>(got_acks, seq + 1);
        }
        acked = std::max(acked, got_acks);
        r.sig(mix(rd.trace, cut));
        r.nontrivial |= rd.shorts > 0 || broken;
        r.ticks++;
    }
    (void)google;
    if (next != payload.size()) fail("lost-message", "%s: %zu messages sent and acknowledged, %zu taken over", o.name, payload.size(), next);
}
static void w_p14(Run &r)
{
    const Ops &o   = pick_any(r);
    uint32_t hops  = 1 + r.choose(6);
    uint32_t n     = 1 + r.choose(4);
    bool with_gpb  = o.gpb && r.choose(3);
    bool probe     = with_gpb && r.choose(64) == 63; // required members left empty
    std::vector<Msg> sent;
    for (uint32_t i = 0; i < n; i++)
    {
        Gen g(r);
        gen_profile(r, g, true);
        g.depth      = 4;
        g.budget     = hops > 3 ? 25 : 45;
        g.no_default = with_gpb && !probe;
        Msg m(o);
        o.gen(m.p, g);
        if (probe && g.empty_required)
        {
            std::string out, err;
            std::string in = encode(m, r.choose(2) ? JSON : PB);
            bool js        = in.size() && in[0] == '{';
            count("probe:empty-required-to-reference");
            if (!gpb_hop(o, in, js, false, true, out, &err))
            {
                if (err.find("missing") != err.npos) fail("reference-refuses-empty-required", "%s: required member left empty: %s", o.name, err.c_str());
                fail("reference-refuses", "%s as %s: %s", o.name, js ? "json" : "pb", err.c_str());
            }
        }
        sent.push_back(std::move(m));
    }
    if (probe) with_gpb = false;
    uint32_t breaks = r.choose(7);
    std::string route;
    bool numbers_as_text = false; // the reference implementation writes 64 bit numbers as strings
    // origin encodes for the first link
    Fmt f = Fmt(r.choose(3));
    std::vector<std::string> payload;
    for (auto &m : sent) payload.push_back(send_encode(r, m, f));
    route = fmt_name(f);
    std::vector<Msg> got;
    for (uint32_t h = 0; h < hops; h++)
    {
        bool last = h + 1 == hops;
        // a middlebox that re-orders and re-lays-out without changing the meaning
        if (r.choose(6) == 5)
        {
            count("fault:proxy-relayout");
            for (auto &p : payload)
                if (f == JSON)
                    p = relayout_json(r, p, false, !numbers_as_text);
                else if (f == PB)
                    p = mutate_pb(r, p, false, true);
            route += "~";
        }
        bool google = !last && with_gpb && r.choose(3) == 2;
        std::vector<std::string> raw;
        got.clear();
        link_transfer(r, o, payload, f, breaks, got, raw, google);
        if (last) break;
        Fmt nf = Fmt(r.choose(3));
        numbers_as_text = google && nf == JSON;
        payload.clear();
        for (size_t i = 0; i < got.size(); i++)
        {
            if (google)
            {
                std::string in = raw[i], out, err;
                if (f == PBD) // our own varint length prefix
                {
                    size_t k = 0;
                    while (in[k] & 0x80) k++;
                    in.erase(0, k + 1);
                }
                bool keep = r.choose(2);
                if (!gpb_hop(o, in, f == JSON, nf == JSON, keep, out, &err))
                    fail("reference-refuses", "%s, route %s: the reference implementation refuses message %zu: %s; %s", o.name, route.c_str(), i, err.c_str(), f == JSON ? quote(in, 300).c_str() : hex(in, 150).c_str());
                count("probe:reference-hop");
                payload.push_back(nf == PBD ? delimit(out) : out);
            }
            else
                payload.push_back(send_encode(r, got[i], nf));
        }
        route += strf(" > %s%s", google ? "[google] " : "", fmt_name(nf));
        f = nf;
    }
    r.ev("%s x%u, route %s", o.name, n, route.c_str());
    if (got.size() != sent.size()) fail("lost-message", "%s: %zu of %zu messages arrive", o.name, got.size(), sent.size());
    for (size_t i = 0; i < sent.size(); i++)
    {
        auto a = sent[i].text(), b = got[i].text();
        if (a != b)
        {
            size_t d = 0;
            while (d < a.size() && d < b.size() && a[d] == b[d]) d++;
            size_t from = d > 60 ? d - 60 : 0;
            fail("message-changed", "%s, route %s: message %zu was ...%s, arrives as ...%s", o.name, route.c_str(), i, a.substr(from, 160).c_str(), b.substr(from, 160).c_str());
        }
    }
    r.nontrivial |= hops > 1;
    r.sig(hash_bytes(route.data(), route.size()));
    r.sig(hash_bytes(o.name, strlen(o.name)));
    for (auto &m : sent)
    {
        auto t = m.text();
        r.sig(hash_bytes(t.data(), t.size()));
    }
    r.sample = strf("%s x%u over %u links: %s", o.name, n, hops, route.c_str());
}
static Reg p14({"P14", [](Run &r) { lib_world(r, w_p14, true); }, 60000, 20000000, 60, 3000,
                "one run = 1-4 messages of one type sent over 1-6 links, each link protobuf, delimited protobuf or JSON, each node re-encoding (some nodes are the reference implementation), connections breaking at drawn bytes and acknowledgements lost, with retransmission; non-trivial = more than one link, a fragmented read, or a broken connection",
                {"spb headers (include/spb)", "spb-protoc (real binary, generates the schema code)", "generated C++ code", "libstdc++", "libprotobuf (reference peer)"}, LIB_STUB, LIB_ASSUME,
                "hash of (route, message type and values, exact chunk positions on every connection, break points)", "connections", 100});

// ------------------------------------------------------------------ P15
static void w_p15(Run &r)
{
    const uint32_t kinds = 1 + r.choose(3);
    std::vector<const Ops *> types;
    for (uint32_t i = 0; i < kinds; i++) types.push_back(&pick_any(r));
    const Fmt f       = r.choose(2) ? JSON : PBD;
    const uint32_t nl = f == JSON ? r.choose(3) : 0; // 0 no separator, 1 newline, 2 mixed white space
    struct Rec
    {
        size_t begin, end; // of the document itself
        const Ops *o;
        std::string text;
    };
    std::vector<Rec> recs;
    std::string file;
    uint32_t rounds = 1 + r.choose(4);
    for (uint32_t round = 0; round < rounds; round++)
    {
        uint32_t n     = r.choose(6);
        size_t durable = file.size();
        for (uint32_t i = 0; i < n; i++)
        {
            const Ops &o  = *types[recs.size() % kinds];
            Msg m         = gen_msg(r, o, false, 3, 20);
            std::string d = send_encode(r, m, f);
            recs.push_back({file.size(), file.size() + d.size(), &o, m.text()});
            file += d;
            if (nl == 1) file += "\n";
            if (nl == 2)
            {
                uint32_t k = r.choose(4) == 3 ? r.choose(600) : r.choose(3);
                for (uint32_t j = 0; j < k; j++) file += " \t\r\n"[(j + i) & 3];
            }
            if (r.choose(3) == 2) durable = file.size(); // fsync
        }
        // crash: a tail of what was not synced is lost
        size_t keep = durable + (r.choose(4) ? r.choose(uint32_t(file.size() - durable) + 1) : 0);
        if (r.choose(3) == 2) keep = r.choose(uint32_t(file.size()) + 1); // a disk that lied about the sync
        if (keep < file.size()) count("fault:tail-lost");
        r.ev("round %u: %u records, %zu bytes; crash keeps %zu", round, n, file.size(), keep);
        file.resize(keep);
        size_t complete = 0;
        while (complete < recs.size() && recs[complete].end <= keep) complete++;
        bool torn = complete < recs.size() && recs[complete].begin < keep;
        if (torn) r.nontrivial = true, count("probe:torn-record");
        recs.resize(std::min(recs.size(), complete + (torn ? 1u : 0u)));
        // recovery
        size_t off = 0, k = 0;
        uint32_t how = r.choose(3); // 0 buffer, 1 one reader over the file (delimited), 2 reader re-opened at every record
        if (f == JSON && how == 1) how = 2;
        SimReader whole;
        whole.set(file);
        draw_policy(r, whole, file.size());
        for (;;)
        {
            if (f == JSON)
                while (off < file.size() && strchr(" \t\r\n", file[off])) off++;
            if (off == file.size()) break;
            const Ops &o = *types[k % kinds];
            Msg m(o);
            Res x;
            SimReader part;
            if (how == 0)
                x = deserialize_buffer(m, std::string_view(file).substr(off), f, int(r.choose(3)));
            else if (how == 1)
                x = deserialize_reader(m, whole, f, 0);
            else
            {
                part.set(std::string_view(file).substr(off));
                draw_policy(r, part, file.size() - off);
                x = deserialize_reader(m, part, f, 0);
                r.sig(part.trace);
                r.nontrivial |= part.shorts > 0;
            }
            if (k >= complete)
            {
                if (x.ok()) fail("torn-record-accepted", "%s as %s: record %zu lost its tail (%zu of %zu bytes left) and is accepted", o.name, fmt_name(f), k, file.size() - off, k < recs.size() ? recs[k].end - recs[k].begin : 0);
                break;
            }
            const std::string where = strf("%s as %s, record %zu of %zu complete ones, at %zu of %zu bytes (%s)", o.name, fmt_name(f), k, complete, off, file.size(), how == 0 ? "buffer" : how == 1 ? policy_text(whole).c_str() : policy_text(part).c_str());
            if (!x.ok()) fail("record-lost", "%s: %s", where.c_str(), x.text().c_str());
            size_t size = recs[k].end - recs[k].begin;
            if (x.ret < size || x.ret > recs[k].end - recs[k].begin + (f == JSON ? (k + 1 < recs.size() ? recs[k + 1].begin : file.size()) - recs[k].end : 0))
                fail("consumed-differs", "%s: it has %zu bytes, deserialize reports %zu", where.c_str(), size, x.ret);
            auto t = m.text();
            if (t != recs[k].text) fail("record-changed", "%s: appended %s, recovered %s", where.c_str(), clip(recs[k].text, 300).c_str(), clip(t, 300).c_str());
            off += x.ret;
            k++;
        }
        if (k != complete) fail("record-lost", "%zu complete records in the journal, %zu recovered", complete, k);
        count("probe:records-recovered", k);
        // truncate the torn rest and go on
        recs.resize(complete);
        file.resize(f == JSON ? std::min(off, file.size()) : off);
        r.sig(mix(keep, complete));
        r.sig(hash_bytes(file.data(), file.size()));
        r.sig(whole.trace);
        r.ticks++;
    }
    r.nontrivial |= !recs.empty();
    r.sample = strf("%u rounds, %u record types, %s, %zu records at the end", rounds, kinds, fmt_name(f), recs.size());
}
static Reg p15({"P15", [](Run &r) { lib_world(r, w_p15, true); }, 100000, 20000000, 40, 3000,
                "one run = a journal file with 1-4 rounds of appends, crash (a drawn tail is lost), recovery by the reported sizes, truncation and further appends; records of 1-3 types, delimited protobuf or JSON; non-trivial = a record was torn, a read was fragmented, or records were recovered",
                LIB_REAL, {"byte streams (user reader/writer callbacks)", "journal file and crash", "operator new/delete", "wall clock (step counter)"}, LIB_ASSUME,
                "hash of (file contents after every crash, sizes kept, chunk positions of the recovery reads)", "append/crash/recover rounds"});
void engine_warmup(const World &w)
{
    if (!strcmp(w.id, "P14")) gpb_init();
}
} // namespace sim
