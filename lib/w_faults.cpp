// P05-P09, P13: callback exceptions, writer equivalence, allocation failure, heap use, termination, histories.
#include "world.hpp"
namespace sim
{
// an intact document in one of the three formats, optionally with unknown data and another layout
std::string intact_stream(Run &r, const Msg &m, Fmt f, bool extras)
{
    if (f == JSON)
    {
        std::string s = encode(m, JSON);
        return extras ? relayout_json(r, s, r.choose(2), r.choose(2)) : s;
    }
    std::string b = encode(m, PB);
    if (extras) b = mutate_pb(r, b, true, true);
    return f == PBD ? delimit(b) : b;
}

// ------------------------------------------------------------------ P05
static void p05_read(Run &r)
{
    const Ops &o  = pick_any(r);
    Fmt f         = Fmt(r.choose(3));
    Msg m         = gen_msg(r, o, false, 3, 30);
    std::string s = intact_stream(r, m, f, r.coin(2, 3));
    bool damaged  = r.coin(1, 6);
    if (damaged) s = damage(r, s);
    SimReader proto;
    proto.set(s);
    draw_policy(r, proto, s.size());
    int how = int(r.choose(4) == 3); // by reference / returned
    r.ev("%s as %s, %zu bytes, %s: %s", o.name, fmt_name(f), s.size(), policy_text(proto).c_str(), f == JSON ? quote(s, 200).c_str() : hex(s, 120).c_str());
    SimReader base_rd = proto;
    Msg base(o);
    Res base_res = deserialize_reader(base, base_rd, f, how);
    uint64_t n   = base_rd.calls;
    uint32_t tries = n <= 10 ? uint32_t(n) : 10;
    for (uint32_t i = 0; i < tries; i++)
    {
        SimReader rd = proto;
        if (n <= 10)
            rd.throw_at_call = i + 1;
        else if (r.choose(3) == 2)
            rd.throw_at_pos = r.choose(uint32_t(s.size()) + 1);
        else
            rd.throw_at_call = 1 + r.choose(uint32_t(n));
        rd.throw_kind = int(r.choose(N_THROW));
        rd.token      = 1000 + int(r.choose(1000));
        Msg got(o);
        if (r.coin(1, 5)) got = Msg(m); // a used object
        Res res = deserialize_reader(got, rd, f, how);
        r.sig(mix(mix(rd.trace, rd.throw_at_call ^ rd.throw_at_pos), hash_bytes(s.data(), s.size())));
        if (!rd.threw) continue;
        r.nontrivial = true;
        r.ev("throw %s at read %lu (position %zu): %s", throw_kind_name(rd.throw_kind), rd.calls - rd.after_throw, rd.pos, res.text().c_str());
        if (res.ok())
            fail("exception-swallowed", "%s as %s (%s): the reader threw %s at position %zu of %zu, the call returned success", o.name, fmt_name(f), policy_text(rd).c_str(), throw_kind_name(rd.throw_kind), rd.pos, s.size());
        if (res.out != IOEXC || res.token != rd.token || res.what != throw_kind_name(rd.throw_kind))
            fail("exception-replaced", "%s as %s (%s): the reader threw %s(%d) at position %zu of %zu, the caller got %s token %d", o.name, fmt_name(f), policy_text(rd).c_str(), throw_kind_name(rd.throw_kind), rd.token, rd.pos,
                 s.size(), res.text().c_str(), res.token);
        if (rd.after_throw) fail("called-after-exception", "%s as %s: the reader was called %lu more times after it threw", o.name, fmt_name(f), rd.after_throw);
        (void)got.text(); // still a valid object
    }
    r.sample = strf("read %s as %s, %zu bytes, %s, %lu reads, %u fault points", o.name, fmt_name(f), s.size(), policy_text(proto).c_str(), n, tries);
}
static void p05_write(Run &r)
{
    const Ops &o = pick_any(r);
    Fmt f        = Fmt(r.choose(3));
    Msg m        = gen_msg(r, o, false, 3, 30);
    SimWriter b;
    Res rb = serialize_writer(m, b, f);
    if (!rb.ok()) fail("encode-valid", "%s as %s: %s", o.name, fmt_name(f), rb.text().c_str());
    auto before    = m.text();
    uint64_t n     = b.calls;
    uint32_t tries = n <= 12 ? uint32_t(n) : 12;
    r.ev("write %s as %s, %zu bytes in %lu chunks", o.name, fmt_name(f), b.out.size(), n);
    for (uint32_t i = 0; i < tries; i++)
    {
        SimWriter w;
        if (n <= 12)
            w.throw_at_call = i + 1;
        else if (r.choose(3) == 2)
            w.throw_at_pos = r.choose(uint32_t(b.out.size()));
        else
            w.throw_at_call = 1 + r.choose(uint32_t(n));
        w.throw_kind = int(r.choose(N_THROW));
        w.token      = 1000 + int(r.choose(1000));
        Res res      = serialize_writer(m, w, f);
        r.sig(mix(w.throw_at_call ^ w.throw_at_pos, hash_bytes(b.out.data(), b.out.size())));
        if (!w.threw) continue;
        r.nontrivial = true;
        r.ev("throw %s at chunk %lu: %s", throw_kind_name(w.throw_kind), w.calls - w.after_throw, res.text().c_str());
        if (res.ok()) fail("exception-swallowed", "%s as %s: the writer threw after %zu of %zu bytes, the call returned success", o.name, fmt_name(f), w.out.size(), b.out.size());
        if (res.out != IOEXC || res.token != w.token || res.what != throw_kind_name(w.throw_kind))
            fail("exception-replaced", "%s as %s: the writer threw %s(%d), the caller got %s token %d", o.name, fmt_name(f), throw_kind_name(w.throw_kind), w.token, res.text().c_str(), res.token);
        if (w.after_throw) fail("called-after-exception", "%s as %s: the writer was called %lu more times after it threw", o.name, fmt_name(f), w.after_throw);
        if (m.text() != before) fail("source-changed", "%s as %s: a failed serialize changed the message", o.name, fmt_name(f));
    }
    r.sample = strf("write %s as %s, %zu bytes, %lu chunks, %u fault points", o.name, fmt_name(f), b.out.size(), n, tries);
}
static Reg p05({"P05",
                [](Run &r)
                {
                    lib_world(r, [](Run &r) { r.choose(3) == 2 ? p05_write(r) : p05_read(r); });
                },
                60000, 20000000, 40, 3000,
                "one run = one decode or encode of one document (intact, re-laid out with unknown data, or damaged) executed once undisturbed and then with the user callback throwing at every one of its invocations (up to 12 sampled, by call number or stream position), with nine exception types; non-trivial = at least one exception was thrown",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document bytes, delivery, point of the exception) over the run", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P06
static void w_p06(Run &r)
{
    const Ops &o = pick_any(r);
    Fmt f        = Fmt(r.choose(3));
    Msg m        = gen_msg(r, o, false, 4, 60);
    auto before  = m.text();
    SimWriter w;
    Res rw = serialize_writer(m, w, f);
    if (!rw.ok()) fail("encode-valid", "writer: %s", rw.text().c_str());
    if (w.bad_args) fail("writer-null", "%s as %s: the writer was given a null pointer", o.name, fmt_name(f));
    Res rs = serialize_size(m, f);
    if (!rs.ok()) fail("encode-valid", "size: %s", rs.text().c_str());
    r.ev("%s as %s: %zu bytes in %lu chunks, predicted %zu, returned %zu", o.name, fmt_name(f), w.out.size(), w.calls, rs.ret, rw.ret);
    if (rs.ret != w.out.size()) fail("size-wrong", "%s as %s: predicted size %zu, the writer received %zu bytes", o.name, fmt_name(f), rs.ret, w.out.size());
    if (rw.ret != w.out.size()) fail("returned-size", "%s as %s: serialize returned %zu, the writer received %zu bytes", o.name, fmt_name(f), rw.ret, w.out.size());
    // caller's buffer: exactly sized (anything outside is seen by the sanitizer), then inside a larger one
    {
        size_t n = rs.ret;
        std::unique_ptr<char[]> b(new char[n ? n : 1]);
        Res rb = serialize_buffer(m, n ? b.get() : b.get() + 1, f, n);
        if (!rb.ok()) fail("encode-valid", "buffer: %s", rb.text().c_str());
        if (rb.ret != n || memcmp(b.get(), w.out.data(), n))
            fail("buffer-differs", "%s as %s: buffer output (returned %zu) differs from the writer's %zu bytes", o.name, fmt_name(f), rb.ret, n);
        size_t pre = r.choose(40), post = 16;
        std::unique_ptr<unsigned char[]> c(new unsigned char[pre + n + post]);
        memset(c.get(), 0x5c, pre + n + post);
        rb = serialize_buffer(m, c.get() + pre, f, n);
        if (!rb.ok() || rb.ret != n || memcmp(c.get() + pre, w.out.data(), n)) fail("buffer-differs", "%s as %s: second buffer output differs", o.name, fmt_name(f));
        for (size_t i = 0; i < pre + n + post; i++)
            if ((i < pre || i >= pre + n) && c[i] != 0x5c) fail("buffer-overrun", "%s as %s: byte %zd outside the predicted %zu was written", o.name, fmt_name(f), ssize_t(i) - ssize_t(pre), n);
    }
    for (int kind = 0; kind < 4; kind++)
    {
        std::string out;
        if (kind < 2) out.assign(r.choose(3) ? r.choose(2000) : 0, '\x77'); // a used container
        Res rc = serialize_string(m, out, f, kind);
        if (!rc.ok()) fail("encode-valid", "container %d: %s", kind, rc.text().c_str());
        if (out != w.out) fail("container-differs", "%s as %s: container overload %d holds %zu bytes, the writer received %zu", o.name, fmt_name(f), kind, out.size(), w.out.size());
        if (rc.ret != w.out.size()) fail("returned-size", "%s as %s: container overload %d returned %zu for %zu bytes", o.name, fmt_name(f), kind, rc.ret, w.out.size());
    }
    if (f == PBD)
    {
        std::string plain = encode(m, PB);
        if (delimit(plain) != w.out) fail("delimited-differs", "%s: delimited output is not length + plain output", o.name);
    }
    // failing writer: what was handed over is a prefix
    uint32_t tries = uint32_t(std::min<uint64_t>(w.calls, 6));
    for (uint32_t i = 0; i < tries; i++)
    {
        SimWriter x;
        if (r.choose(2))
            x.throw_at_call = 1 + r.choose(uint32_t(w.calls));
        else
            x.throw_at_pos = r.choose(uint32_t(w.out.size()) + 1);
        x.throw_kind = int(r.choose(N_THROW));
        Res rx       = serialize_writer(m, x, f);
        r.sig(mix(x.throw_at_call ^ x.throw_at_pos, 7));
        if (w.out.compare(0, x.out.size(), x.out) != 0) fail("not-a-prefix", "%s as %s: after a writer failure %zu bytes were handed over that are no prefix of the output", o.name, fmt_name(f), x.out.size());
        if (!x.threw && rx.ok() && x.out != w.out) fail("repeat-differs", "%s as %s: repeated serialize gives other bytes", o.name, fmt_name(f));
    }
    if (m.text() != before) fail("source-changed", "%s as %s: serialize changed the message", o.name, fmt_name(f));
    r.nontrivial = w.out.size() > 0;
    r.sig(mix(hash_bytes(w.out.data(), w.out.size()), uint64_t(f)));
    r.sample = strf("%s as %s: %zu bytes in %lu chunks, %u writer failures", o.name, fmt_name(f), w.out.size(), w.calls, tries);
}
static Reg p06({"P06", [](Run &r) { lib_world(r, w_p06, true); }, 60000, 20000000, 40, 3000,
                "one run = one message value of one type in one format, encoded through a writer, an exactly sized caller buffer, a guarded caller buffer, four container overloads (with used containers) and up to 6 failing writers; non-trivial = the output is not empty",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (output bytes, format, writer failure points)", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P07
struct FailAlloc
{
    FailAlloc(heap::Mode m, uint64_t k)
    {
        heap::st.mode    = m;
        heap::st.fail_at = k;
        heap::st.n       = 0;
    }
    ~FailAlloc() { heap::st.mode = heap::NORMAL; }
};
static void w_p07(Run &r)
{
    const Ops &o = pick_any(r);
    Fmt f        = Fmt(r.choose(3));
    Msg m        = gen_msg(r, o, false, 4, 30);
    bool write   = r.coin(1, 4);
    std::string s;
    SimReader proto;
    int kind = 0;
    bool reader = false, damaged = false;
    Msg base(o);
    if (!write)
    {
        s       = intact_stream(r, m, f, r.choose(2));
        damaged = r.coin(1, 8);
        if (damaged) s = damage(r, s);
        reader = r.choose(2);
        kind   = reader ? int(r.choose(4) == 3) : int(r.choose(4));
        proto.set(s);
        if (reader) draw_policy(r, proto, s.size());
        if (kind == 0 && r.coin(1, 5)) base = gen_msg(r, o, false, 2, 10);
    }
    else
        kind = int(r.choose(4));
    auto source = m.text();
    auto call   = [&](Msg &got, std::string &out)
    {
        if (write) return serialize_string(m, out, f, kind);
        SimReader rd = proto;
        return reader ? deserialize_reader(got, rd, f, kind) : deserialize_buffer(got, s, f, kind);
    };
    Msg want(base);
    std::string wout;
    Res rw       = call(want, wout);
    auto wtext   = want.text();
    uint64_t n   = rw.news;
    r.ev("%s %s as %s (%s), %zu bytes: %lu allocations, %s", write ? "serialize" : "deserialize", o.name, fmt_name(f), reader ? policy_text(proto).c_str() : "memory", s.size(), n, rw.text().c_str());
    if (!damaged && !rw.ok() && base.text() == Msg(o).text()) fail("decode-valid", "%s as %s: intact data %s: %s", o.name, fmt_name(f), quote(s).c_str(), rw.text().c_str());
    uint32_t tries = n <= 8 ? uint32_t(n) : 8;
    for (uint32_t i = 0; i < tries; i++)
    {
        uint64_t k     = n <= 8 ? i + 1 : 1 + r.choose(uint32_t(n));
        heap::Mode md  = heap::Mode(1 + r.choose(3));
        Msg got(base);
        std::string out;
        Res res;
        {
            FailAlloc fa(md, k);
            res = call(got, out);
        }
        r.sig(mix(mix(k, md), hash_bytes(s.data(), s.size())));
        if (!res.failed) continue;
        count(md == heap::FAIL_ONE ? "fault:one-allocation-fails" : md == heap::FAIL_FROM ? "fault:memory-exhausted" : "fault:every-kth-allocation-fails", res.failed);
        r.nontrivial = true;
        r.ev("allocation %lu fails (mode %d): %s", k, md, res.text().c_str());
        if (res.ok())
        {
            // only if nothing is missing
            if (write ? out != wout : !rw.ok() || got.text() != wtext)
                fail("failure-hidden", "%s %s as %s: allocation %lu of %lu failed, the call returned success with a different result", write ? "serialize" : "deserialize", o.name, fmt_name(f), k, n);
        }
        else if (res.out != NOMEM && !(damaged && res.out == EXC))
            fail("failure-replaced", "%s %s as %s: allocation %lu of %lu failed, the caller got %s", write ? "serialize" : "deserialize", o.name, fmt_name(f), k, n, res.text().c_str());
        (void)got.text();
        // memory is available again
        std::string out2;
        if (write)
        {
            if (m.text() != source) fail("source-changed", "%s as %s: a failed serialize changed the message", o.name, fmt_name(f));
            Res r2 = call(got, out2);
            if (!r2.ok() || out2 != wout) fail("retry-differs", "serialize %s as %s: repeating the call after an allocation failure gives %s", o.name, fmt_name(f), r2.text().c_str());
        }
        else
        {
            SimWriter w;
            (void)serialize_writer(got, w, PB);
            got.o->assign(got.p, base.p);
            Res r2 = call(got, out2);
            if (r2.ok() != rw.ok() || (r2.ok() && got.text() != wtext))
                fail("retry-differs", "deserialize %s as %s: repeating the call into the reassigned message after an allocation failure gives %s", o.name, fmt_name(f), r2.text().c_str());
        }
    }
    r.sample = strf("%s %s as %s, %zu bytes, %lu allocations, %u fault points", write ? "serialize" : "deserialize", o.name, fmt_name(f), s.size(), n, tries);
}
static Reg p07({"P07", [](Run &r) { lib_world(r, w_p07); }, 80000, 20000000, 40, 3000,
                "one run = one encode into a container or one decode (buffer or fragmenting reader, sometimes into a used object), executed undisturbed and then with allocation k failing (every k if few, else 8 sampled) in three modes (one failure, exhaustion from there on, every k-th); non-trivial = at least one allocation was refused",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document, mode and index of every injected failure)", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P08
static void w_p08(Run &r)
{
    bool dec = r.choose(2);
    if (!dec)
    {
        const Ops &o = pick_any(r);
        Fmt f        = Fmt(r.choose(3));
        Msg m        = gen_msg(r, o, false, 4, 60);
        Res rs       = serialize_size(m, f);
        if (!rs.ok()) fail("encode-valid", "size: %s", rs.text().c_str());
        SimWriter w;
        Res rw = serialize_writer(m, w, f);
        std::unique_ptr<char[]> b(new char[rs.ret + 1]);
        Res rb = serialize_buffer(m, b.get(), f, rs.ret);
        r.ev("%s as %s, %zu bytes: heap calls size %lu writer %lu buffer %lu", o.name, fmt_name(f), rs.ret, rs.mallocs, rw.mallocs, rb.mallocs);
        for (auto [what, res] : {std::pair{"serialize_size", &rs}, {"serialize to a writer", &rw}, {"serialize to a buffer", &rb}})
            if (res->ok() && (res->mallocs || res->news)) fail("heap-used", "%s of %s as %s makes %lu heap allocations", what, o.name, fmt_name(f), std::max(res->mallocs, res->news));
        count("measured:encode", 3);
        r.nontrivial = true;
        r.sig(mix(hash_bytes(w.out.data(), w.out.size()), f));
        r.sample = strf("encode %s as %s, %zu bytes", o.name, fmt_name(f), rs.ret);
        return;
    }
    static const char *const names[] = {"simf.Fixed", "simf.Sub", "simt.Bits", "simt.Empty"};
    const Ops &o                     = pick_type(r, names, 4);
    Fmt f                            = Fmt(r.choose(3));
    Msg m                            = gen_msg(r, o, false, 3, 60);
    std::string s                    = intact_stream(r, m, f, r.coin(2, 3));
    if (r.coin(1, 4)) s = damage(r, s);
    for (int i = 0; i < 3; i++)
    {
        Msg got(o);
        SimReader rd;
        rd.set(s);
        Res res;
        if (i == 0)
            res = deserialize_buffer(got, s, f, 0);
        else
        {
            draw_policy(r, rd, s.size());
            res = deserialize_reader(got, rd, f, 0);
        }
        r.ev("decode %s as %s from %s: %s, heap calls %lu", o.name, fmt_name(f), i ? policy_text(rd).c_str() : "a buffer", res.text().c_str(), res.mallocs);
        if (res.ok() && (res.mallocs || res.news))
            fail("heap-used", "deserializing the fixed-size message %s as %s from %s makes %lu heap allocations; data %s", o.name, fmt_name(f), i ? policy_text(rd).c_str() : "a buffer", std::max(res.mallocs, res.news),
                 f == JSON ? quote(s, 200).c_str() : hex(s, 100).c_str());
        if (res.ok()) count("measured:decode"), r.nontrivial = true;
        r.sig(mix(mix(hash_bytes(s.data(), s.size()), rd.trace), f));
    }
    r.sample = strf("decode %s as %s, %zu bytes", o.name, fmt_name(f), s.size());
}
static Reg p08({"P08", [](Run &r) { lib_world(r, w_p08); }, 100000, 20000000, 40, 3000,
                "one run = one message encoded by size / writer / caller buffer, or one document (with unknown data, re-laid out, sometimes damaged) decoded into a message type of fixed-size fields from a buffer and two fragmenting readers, with every heap request during the call counted (operator new and malloc family); non-trivial = at least one successful call was measured",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document bytes, format, delivery)", "reader/writer callback invocations"});

// ------------------------------------------------------------------ P09
static Msg deep_msg(Run &r, size_t &depth)
{
    // a chain of nested messages, by hand-made wire data
    depth               = 2 + r.choose(60);
    const char *names[] = {"simt3.Tree", "simt.Opt", "simt.Text", "siml2.Lim2", "sime.New", "simt.Rep"};
    uint32_t field[]    = {1, 2000, 6, 7, 3, 19};
    uint32_t t          = r.choose(6);
    std::string body;
    uint32_t deepest = t == 4 ? 1 : 0;
    (void)deepest;
    for (size_t i = 0; i < depth; i++)
    {
        std::string x;
        uint32_t num = t == 4 ? (i + 1 == depth ? 3 : 6) : field[t];
        put_varint(x, num << 3 | 2);
        put_varint(x, body.size());
        body = x + body;
    }
    Msg m(ops(names[t]));
    Res res = deserialize_buffer(m, body, PB, 0);
    if (!res.ok()) fail("decode-valid", "%s, %zu nested messages: %s", names[t], depth, res.text().c_str());
    return m;
}
static void check_reader(Run &r, const Ops &o, Fmt f, const SimReader &rd, const Res &res, const std::string &s)
{
    (void)r;
    if (rd.bad_args) fail("bad-read-request", "%s as %s (%s): the reader was asked for zero bytes or given a null pointer", o.name, fmt_name(f), policy_text(rd).c_str());
    if (rd.after_eof > 2)
        fail("read-after-eof", "%s as %s (%s): the reader was called %lu more times after it had signalled the end (%zu bytes delivered): %s", o.name, fmt_name(f), policy_text(rd).c_str(), rd.after_eof, rd.pos, res.text().c_str());
    if (res.max_req > 100000 + 1000 * rd.pos)
        fail("unbounded-allocation", "%s as %s (%s): %zu bytes were delivered, and %zu bytes of memory requested at once: %s", o.name, fmt_name(f), policy_text(rd).c_str(), rd.pos, res.max_req, res.text().c_str());
    uint64_t bound = 6000 + 400 * s.size();
    if (res.steps > bound)
        fail("too-much-work", "%s as %s (%s): %lu basic blocks for %zu bytes (bound %lu)", o.name, fmt_name(f), policy_text(rd).c_str(), res.steps, s.size(), bound);
}
// a peer that announces far more data than it sends
static std::string length_lie(Run &r, const std::string &doc, Fmt f)
{
    static const uint64_t lies[] = {1000, 1u << 14, 1u << 16, 1u << 20, 1u << 24, 1u << 28, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1};
    std::string_view body = doc;
    if (f == PBD)
    {
        size_t i = 0;
        while (i < body.size() && (body[i] & 0x80)) i++;
        body.remove_prefix(std::min(i + 1, body.size()));
    }
    std::vector<RawField> fs, ld;
    if (!split_pb(body, fs)) return doc;
    for (auto &x : fs)
        if (x.wt == 2) ld.push_back(x);
    if (ld.empty()) return doc;
    auto x       = ld[r.choose(uint32_t(ld.size()))];
    uint64_t lie = lies[r.choose(9)];
    std::string out(body.substr(0, x.begin));
    put_varint(out, uint64_t(x.num) << 3 | 2);
    if (x.end - x.payload > 2 && r.choose(2)) // in the value itself: a nested length
    {
        std::string in(body.substr(x.payload, x.end - x.payload));
        std::string inner = length_lie(r, in, PB);
        put_varint(out, inner == in ? lie : r.choose(2) ? inner.size() : lie);
        out += inner;
    }
    else
    {
        put_varint(out, lie);
        out += body.substr(x.payload, x.end - x.payload);
    }
    if (r.choose(2)) out += body.substr(x.end);
    count("fault:announced-length-not-sent");
    if (f != PBD) return out;
    std::string d;
    put_varint(d, r.choose(2) ? out.size() : std::max<uint64_t>(lie + 100, lie) & 0xffffffff);
    return d + out;
}
static void w_p09(Run &r)
{
    bool deep    = r.coin(1, 6);
    size_t depth = 0;
    Fmt f        = Fmt(r.choose(3));
    Msg m        = deep ? deep_msg(r, depth) : gen_msg(r, pick_any(r), false, 4, 40);
    const Ops &o = *m.o;
    // encode within bounded work
    {
        Res rs = serialize_size(m, f);
        if (!rs.ok()) fail("encode-valid", "size: %s", rs.text().c_str());
        SimWriter w;
        Res rw         = serialize_writer(m, w, f);
        uint64_t bound = (6000 + 400 * (rs.ret + 1)) * (deep ? depth + 2 : 6);
        if (rw.steps > bound || rs.steps > bound)
            fail("too-much-work", "%s as %s: %lu/%lu basic blocks to size/encode %zu bytes, nesting %zu (bound %lu)", o.name, fmt_name(f), rs.steps, rw.steps, rs.ret, depth, bound);
        r.ev("%s as %s: %zu bytes, work size %lu writer %lu", o.name, fmt_name(f), rs.ret, rs.steps, rw.steps);
    }
    std::string s = intact_stream(r, m, f, r.coin(2, 3));
    if (r.coin(1, 5)) s = (f == JSON ? std::string(r.choose(600), ' ') : std::string()) + s;
    for (int i = 0; i < 3; i++)
    {
        std::string d = s;
        uint32_t how  = r.choose(f == JSON ? 4 : 5);
        if (how == 4) d = length_lie(r, d, f);
        if (how == 1) d.resize(r.choose(uint32_t(d.size()) + 1)), count("fault:end-of-stream");
        if (how == 2) d = damage(r, d);
        if (how == 3) d = damage(r, d), d.resize(r.choose(uint32_t(d.size()) + 1)), count("fault:end-of-stream");
        SimReader rd;
        rd.set(d);
        draw_policy(r, rd, d.size());
        Msg got(o);
        Res res = deserialize_reader(got, rd, f, 0);
        r.ev("decode %zu bytes (%s): %s, %lu reads, %lu after the end, work %lu", d.size(), policy_text(rd).c_str(), res.text().c_str(), rd.calls, rd.after_eof, res.steps);
        check_reader(r, o, f, rd, res, d);
        r.sig(mix(mix(rd.trace, hash_bytes(d.data(), d.size())), f));
        Msg g2(o);
        Res rb         = deserialize_buffer(g2, d, f, 0);
        uint64_t bound = 6000 + 400 * d.size();
        if (rb.steps > bound) fail("too-much-work", "%s as %s from a buffer: %lu basic blocks for %zu bytes (bound %lu)", o.name, fmt_name(f), rb.steps, d.size(), bound);
        r.nontrivial |= rd.eofs > 0 || how;
    }
    r.sample = strf("%s as %s, %zu bytes, nesting %zu", o.name, fmt_name(f), s.size(), depth);
}
static Reg p09({"P09", [](Run &r) { lib_world(r, w_p09, true); }, 100000, 20000000, 40, 3000,
                "one run = one message (sometimes a chain of up to 60 nested messages) encoded, and its document delivered three times by fragmenting readers, intact, cut, damaged or both, with the work of every call measured in basic blocks of the code under test and every request to the reader checked; non-trivial = the stream ended early or was damaged",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of (document bytes, delivery)", "basic blocks of the code under test are the clock; callback invocations are counted as ticks"});

// ------------------------------------------------------------------ P13
static void w_p13(Run &r)
{
    struct Item
    {
        Msg m;
        std::string text, enc[3], doc[3];
        Msg want[3];
        Item(Msg x) : m(std::move(x)), text(m.text()), want{Msg(*m.o), Msg(*m.o), Msg(*m.o)} {}
    };
    std::vector<Item> items;
    uint32_t n = 1 + r.choose(3);
    for (uint32_t i = 0; i < n; i++)
    {
        items.emplace_back(gen_msg(r, pick_any(r), true, 3, 25));
        auto &it = items.back();
        for (Fmt f : {PB, PBD, JSON})
        {
            it.enc[f] = encode(it.m, f);
            it.doc[f] = intact_stream(r, it.m, f, r.choose(2));
            Res res   = deserialize_buffer(it.want[f], it.doc[f], f, 0);
            if (!res.ok()) fail("decode-valid", "%s as %s: %s", it.m.o->name, fmt_name(f), res.text().c_str());
        }
        r.ev("message %u: %s, %zu/%zu bytes", i, it.m.o->name, it.enc[PB].size(), it.enc[JSON].size());
    }
    std::vector<std::unique_ptr<Msg>> dirty; // targets of failed calls, kept alive
    uint32_t steps = 3 + r.choose(10), failures = 0;
    for (uint32_t k = 0; k < steps; k++)
    {
        auto &it = items[r.choose(n)];
        Fmt f    = Fmt(r.choose(3));
        auto &o  = *it.m.o;
        switch (r.choose(8))
        {
        case 6: // a storm: the same failing call many times over, sometimes deep inside nested data
        {
            if (r.choose(12) != 11) goto plain_failure;
            size_t depth = 0;
            Msg deep     = r.choose(2) ? deep_msg(r, depth) : it.m;
            std::string d = encode(deep, f);
            uint32_t why  = r.choose(3);
            uint32_t cut  = r.choose(uint32_t(d.size()) + 1);
            if (why == 0) d.resize(cut);
            if (why == 1 && !d.empty()) d[std::min<size_t>(cut, d.size() - 1)] = char(r.choose(256));
            uint32_t times = (depth ? 20 : 60) + r.choose(r.choose(4) ? 60 : 1200);
            Out first      = OK;
            for (uint32_t i = 0; i < times; i++)
            {
                Msg t(*deep.o);
                SimReader rd;
                rd.set(d);
                if (why == 2) rd.throw_at_pos = cut;
                Res res = deserialize_reader(t, rd, f, 0);
                if (i == 0) first = res.out;
                if (res.out != first) fail("later-call-affected", "%s as %s, %zu bytes: the first decode gives %s, after %u failures the same decode gives %s", deep.o->name, fmt_name(f), d.size(), out_name(first), i, res.text().c_str());
                failures += !res.ok();
                if (res.ok()) break;
            }
            if (first != OK) count("fault:failure-storm");
            r.ev("step %u: %u decodes of %s like each other: %s", k, times, deep.o->name, out_name(first));
            for (Fmt g : {PB, JSON})
            {
                Msg back(*deep.o);
                Res res = deserialize_buffer(back, encode(deep, g), g, 0);
                if (!res.ok() || back.text() != deep.text()) fail("later-call-affected", "step %u, after %u failed calls: a fresh decode of intact %s as %s gives %s", k, failures, deep.o->name, fmt_name(g), res.text().c_str());
            }
            break;
        }
        case 0: // ordinary decode
        {
            Msg got(o);
            SimReader rd;
            rd.set(it.doc[f]);
            draw_policy(r, rd, it.doc[f].size());
            Res res = r.choose(2) ? deserialize_reader(got, rd, f, 0) : deserialize_buffer(got, it.doc[f], f, 0);
            if (!res.ok() || got.text() != it.want[f].text())
                fail("later-call-affected", "step %u, after %u failed calls: a fresh decode of intact %s as %s gives %s", k, failures, o.name, fmt_name(f), res.text().c_str());
            break;
        }
        case 1: // ordinary encode
        {
            std::string s;
            Res res = serialize_string(it.m, s, f, int(r.choose(4)));
            if (!res.ok() || s != it.enc[f]) fail("later-call-affected", "step %u, after %u failed calls: encoding %s as %s gives %s, other bytes than before", k, failures, o.name, fmt_name(f), res.text().c_str());
            break;
        }
        case 2:
        case 3:
        case 4: // a decode that fails
        plain_failure:
        {
            bool fresh = dirty.empty() || r.choose(3) != 0;
            Msg *t     = nullptr;
            if (fresh)
            {
                dirty.push_back(std::make_unique<Msg>(o));
                t = dirty.back().get();
                if (r.choose(3) == 2) t->o->assign(t->p, it.m.p);
            }
            else
                t = dirty[r.choose(uint32_t(dirty.size()))].get();
            const Ops &to = *t->o;
            std::string d = it.doc[f];
            SimReader rd;
            uint32_t why = r.choose(4);
            if (why == 0) d.resize(r.choose(uint32_t(d.size()) + 1));
            if (why == 1) d = damage(r, d);
            rd.set(d);
            draw_policy(r, rd, d.size());
            if (why == 2) rd.throw_at_call = 1 + r.choose(6), rd.throw_kind = int(r.choose(N_THROW));
            Res res;
            if (why == 3)
            {
                FailAlloc fa(heap::Mode(1 + r.choose(3)), 1 + r.choose(8));
                res = deserialize_reader(*t, rd, f, 0);
            }
            else if (why == 2 || r.choose(2))
                res = deserialize_reader(*t, rd, f, 0);
            else
                res = deserialize_buffer(*t, d, f, 0);
            failures += !res.ok();
            if (!res.ok())
            {
                static const char *const nm[] = {"fault:cut-stream", "fault:damaged-data", "fault:reader-exception-or-other", "fault:allocation"};
                count(nm[why]);
            }
            r.ev("step %u: decode into %s (%s): %s", k, to.name, why == 0 ? "cut" : why == 1 ? "damaged" : why == 2 ? "reader throws" : "allocation fails", res.text().c_str());
            // whatever happened, the target is a valid object
            Walk w = t->walk();
            Msg copy(*t);
            if (copy.text() != w.out) fail("target-broken", "copy of %s after a failed decode differs", to.name);
            for (Fmt g : {PB, JSON})
            {
                SimWriter wr;
                Res rs = serialize_writer(*t, wr, g);
                if (rs.out == NOMEM || rs.out == IOEXC || rs.out == OTHEREXC) fail("target-broken", "serializing %s after a failed decode: %s", to.name, rs.text().c_str());
                if (!rs.ok() && g == PB && w.bad_utf8.empty()) fail("target-broken", "serializing %s after a failed decode: %s", to.name, rs.text().c_str());
                Res rz = serialize_size(*t, g);
                if (rs.ok() && (!rz.ok() || rz.ret != wr.out.size())) fail("target-broken", "size of %s after a failed decode: %s, %zu bytes written", to.name, rz.text().c_str(), wr.out.size());
            }
            if (t->text() != w.out) fail("target-broken", "%s changes while being serialized", to.name);
            // recycled: assigned a fresh value, then decoded into
            if (r.choose(2))
            {
                t->o->reset(t->p);
                if (t->text() != Msg(to).text()) fail("target-broken", "%s assigned a fresh value still holds %s", to.name, clip(t->text(), 300).c_str());
                for (auto &x : items)
                    if (x.m.o == t->o)
                    {
                        Res r2 = deserialize_buffer(*t, x.doc[f], f, 0);
                        if (!r2.ok() || t->text() != x.want[f].text()) fail("later-call-affected", "decoding intact %s as %s into a recycled message: %s", to.name, fmt_name(f), r2.text().c_str());
                        break;
                    }
            }
            break;
        }
        case 5: // an encode that fails
        {
            SimWriter w;
            w.throw_at_call = 1 + r.choose(8);
            w.throw_kind    = int(r.choose(N_THROW));
            Res res         = serialize_writer(it.m, w, f);
            failures += !res.ok();
            r.ev("step %u: encode %s as %s with failing writer: %s", k, o.name, fmt_name(f), res.text().c_str());
            break;
        }
        default: // an encode without memory
        {
            std::string s;
            Res res;
            {
                FailAlloc fa(heap::FAIL_FROM, 1);
                res = serialize_string(it.m, s, f, int(r.choose(4)));
            }
            failures += !res.ok();
            r.ev("step %u: encode %s as %s without memory: %s", k, o.name, fmt_name(f), res.text().c_str());
        }
        }
        if (it.m.text() != it.text) fail("source-changed", "step %u: message %s changed by a serialize call", k, o.name);
        if (dirty.size() > 4) dirty.erase(dirty.begin() + r.choose(uint32_t(dirty.size())));
        r.sig(mix(r.trace_hash, k));
    }
    // at the end everything still works
    for (auto &it : items)
        for (Fmt f : {PB, PBD, JSON})
        {
            std::string s = encode(it.m, f);
            if (s != it.enc[f]) fail("later-call-affected", "at the end %s encodes to other bytes as %s", it.m.o->name, fmt_name(f));
            Msg got(*it.m.o);
            Res res = deserialize_buffer(got, it.doc[f], f, 0);
            if (!res.ok() || got.text() != it.want[f].text()) fail("later-call-affected", "at the end a fresh decode of %s as %s gives %s", it.m.o->name, fmt_name(f), res.text().c_str());
        }
    r.nontrivial = failures > 0;
    r.sample     = strf("%u messages, %u steps, %u failed calls", n, steps, failures);
}
static Reg p13({"P13", [](Run &r) { lib_world(r, w_p13); }, 60000, 20000000, 40, 3000,
                "one run = a history of 3-12 calls on 1-3 messages: decodes that fail (cut, damaged, reader exception, allocation failure) into fresh or already failed targets, encodes that fail (writer exception, no memory), and ordinary calls in between whose results are compared with those before any failure; non-trivial = at least one call failed",
                LIB_REAL, LIB_STUB, LIB_ASSUME, "hash of the history (kind, target and outcome of every call)", "reader/writer callback invocations"});
} // namespace sim
