#include "ops.hpp"
#include <cstring>
#include <new>
#include <numeric>
#include <stdexcept>

namespace sim
{
std::vector<Ops> &all_ops()
{
    static std::vector<Ops> v;
    return v;
}
const Ops &ops(const char *name)
{
    for (auto &o : all_ops())
        if (!strcmp(o.name, name)) return o;
    fprintf(stderr, "unknown type %s\n", name);
    abort();
}

// RFC 3629, table 3-7 of the Unicode standard
bool utf8_valid(std::string_view s)
{
    auto b = [&](size_t i) -> int { return i < s.size() ? (unsigned char)s[i] : -1; };
    auto in = [](int x, int lo, int hi) { return x >= lo && x <= hi; };
    for (size_t i = 0; i < s.size();)
    {
        int c = b(i);
        if (c < 0x80)
            i += 1;
        else if (in(c, 0xC2, 0xDF) && in(b(i + 1), 0x80, 0xBF))
            i += 2;
        else if (c == 0xE0 && in(b(i + 1), 0xA0, 0xBF) && in(b(i + 2), 0x80, 0xBF))
            i += 3;
        else if ((in(c, 0xE1, 0xEC) || in(c, 0xEE, 0xEF)) && in(b(i + 1), 0x80, 0xBF) && in(b(i + 2), 0x80, 0xBF))
            i += 3;
        else if (c == 0xED && in(b(i + 1), 0x80, 0x9F) && in(b(i + 2), 0x80, 0xBF))
            i += 3;
        else if (c == 0xF0 && in(b(i + 1), 0x90, 0xBF) && in(b(i + 2), 0x80, 0xBF) && in(b(i + 3), 0x80, 0xBF))
            i += 4;
        else if (in(c, 0xF1, 0xF3) && in(b(i + 1), 0x80, 0xBF) && in(b(i + 2), 0x80, 0xBF) && in(b(i + 3), 0x80, 0xBF))
            i += 4;
        else if (c == 0xF4 && in(b(i + 1), 0x80, 0x8F) && in(b(i + 2), 0x80, 0xBF) && in(b(i + 3), 0x80, 0xBF))
            i += 4;
        else
            return false;
    }
    return true;
}

// ------------------------------------------------------------------ generator pieces
bool g_allow_huge = false;
static uint32_t huge_size(Run &r, bool binary)
{
    static const uint32_t edge[] = {4096, 16384, 32768, 65536, 131072};
    count("size:huge-value");
    if (binary && r.coin(1, 30)) return (1u << 21) - 8 + r.choose(16);
    if (r.coin(1, 4)) return 5000 + r.choose(150000);
    return edge[r.choose(5)] - 8 + r.choose(16);
}
uint32_t Gen::count()
{
    if (huge && r.coin(1, 4))
    {
        huge--;
        return huge_size(r, false) / 4;
    }
    switch (r.choose(8))
    {
    case 0: return 0;
    case 1:
    case 2: return 1;
    case 3: return 2;
    case 4: return 3;
    case 5: return 4 + r.choose(6);
    case 6: return size ? 10 + r.choose(40) : 2;
    default: return size > 1 ? 100 + r.choose(200) : 1;
    }
}
uint32_t Gen::length(uint32_t cap, bool binary)
{
    if (huge && cap == ~0u && r.choose(3) < 2)
    {
        huge--;
        return huge_size(r, binary);
    }
    if (cap != ~0u && at_limit()) return cap - r.choose(2);
    uint32_t n;
    switch (r.choose(size == 0 ? 5 : size == 1 ? 8 : 10))
    {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = 2 + r.choose(4); break;
    case 3: n = 5 + r.choose(12); break;
    case 4: n = 1 + r.choose(9); break;
    case 5: n = 20 + r.choose(60); break;
    case 6: n = 120 + r.choose(20); break;  // one/two byte length prefix
    case 7: n = 230 + r.choose(60); break;  // around the library's internal buffer size
    case 8: n = 500 + r.choose(600); break;
    default: n = 1000 + r.choose(3000); break;
    }
    budget -= int(n / 200);
    return std::min(n, cap);
}
static void put_cp(std::string &s, uint32_t c)
{
    if (c < 0x80)
        s += char(c);
    else if (c < 0x800)
    {
        s += char(0xC0 | c >> 6);
        s += char(0x80 | (c & 63));
    }
    else if (c < 0x10000)
    {
        s += char(0xE0 | c >> 12);
        s += char(0x80 | (c >> 6 & 63));
        s += char(0x80 | (c & 63));
    }
    else
    {
        s += char(0xF0 | c >> 18);
        s += char(0x80 | (c >> 12 & 63));
        s += char(0x80 | (c >> 6 & 63));
        s += char(0x80 | (c & 63));
    }
}
static uint32_t draw_cp(Prng &p, uint32_t kind)
{
    static const uint32_t edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff};
    switch (kind)
    {
    case 0: return 'a' + p.below(26);
    case 1: return 32 + p.below(95);
    case 2: return p.below(2) ? uint32_t("\"\\/{}[]:,'"[p.below(10)]) : 'a' + p.below(26);
    case 3: return p.below(3) ? 'A' + p.below(26) : p.below(32); // control characters, NUL
    case 4: return 0x80 + p.below(0x780);
    case 5: { uint32_t c = 0x800 + p.below(0xF800); return c >= 0xd800 && c < 0xe000 ? 0xfeff : c; }
    case 6: return 0x10000 + p.below(0x100000);
    case 7: return edge[p.below(sizeof edge / sizeof *edge)];
    default: return draw_cp(p, p.below(8));
    }
}
static std::string text(Run &r, uint32_t n, bool exact)
{
    if (n == 0) return {};
    uint32_t kind = r.choose(10);
    std::string s;
    if (kind == 9)
    {
        static const char *const words[] = {"null", "true", "{}", "\"", "\\", "0", "-1e5", "\\u0041", "[1,2]", "abcd==", "a\"b", "/", "\n", "NaN"};
        s = words[r.choose(sizeof words / sizeof *words)];
        if (!exact) return s.substr(0, n);
        kind = 0;
    }
    Prng p(r.choose(0xffffffff));
    while (s.size() < n)
    {
        size_t before = s.size();
        put_cp(s, draw_cp(p, kind));
        if (s.size() > n)
        {
            s.resize(before);
            s += 'z';
        }
    }
    return s;
}
static std::string spoil(Run &r, std::string s, bool exact)
{
    static const char *const bad[] = {"\xff", "\x80", "\xc3", "\xe2\x82", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98"};
    std::string b                  = bad[r.choose(8)];
    size_t at                      = r.choose(uint32_t(s.size()) + 1);
    if (exact)
    {
        if (s.size() < b.size()) return s;
        return s.replace(std::min(at, s.size() - b.size()), b.size(), b);
    }
    return s.insert(at, b);
}
std::string Gen::utf8(uint32_t cap)
{
    uint32_t n = length(cap);
    if (mark)
    {
        size_t k = strlen(mark);
        if (cap < k) return text(r, n, false);
        uint32_t room = uint32_t(std::min<size_t>(cap - k, n));
        uint32_t pre  = r.choose(room + 1);
        return text(r, pre, false) + mark + text(r, room - pre, false);
    }
    std::string s = text(r, n, false);
    if (poison && r.coin(1, 4))
    {
        s = spoil(r, s, false);
        if (s.size() > cap) s.resize(cap);
    }
    return s;
}
std::string Gen::utf8_exact(size_t n)
{
    if (mark && n >= strlen(mark)) return mark + std::string(n - strlen(mark), 'm');
    if (poison && r.coin(1, 4)) return spoil(r, std::string(n, 'q'), true);
    auto s = text(r, uint32_t(n), true);
    s.resize(n, 'q');
    if (!utf8_valid(s)) s.assign(n, 'q');
    return s;
}
std::string Gen::raw(uint32_t cap) { return raw_exact(length(cap, true)); }
std::string Gen::raw_exact(size_t n)
{
    std::string s(n, 0);
    if (!n) return s;
    Prng p(r.choose(0xffffffff));
    uint32_t kind = p.below(4);
    for (auto &c : s) c = kind == 0 ? char(0xff) : kind == 1 ? char(p.below(4)) : char(p.next());
    return s;
}

// ------------------------------------------------------------------ peers
static void throw_fault(int kind, int token)
{
    switch (kind)
    {
    case 1: throw IoErr<std::exception, 1>(token);
    case 2: throw token;
    case 3: throw IoErr<std::runtime_error, 3>(token, "r");
    case 4: throw IoErr<std::out_of_range, 4>(token, "o");
    case 5: throw IoErr<std::system_error, 5>(token, std::make_error_code(std::errc::connection_reset));
    case 6: throw IoErr<std::bad_alloc, 6>(token);
    case 7: throw IoErr<std::ios_base::failure, 7>(token, "f");
    case 8: throw IoErr<std::invalid_argument, 8>(token, "i");
    }
    throw IoFault{token};
}
bool g_own_step_limit = false;

size_t SimReader::read(void *p, size_t n)
{
    heap::Pause pause;
    calls++;
    if (threw)
    {
        after_throw++;
        if (after_throw > 10000) die_violation("callback-after-exception", "the reader keeps being called after it threw");
    }
    if (!p || n == 0)
    {
        bad_args = true;
        if (n == 0)
        {
            if (++after_eof > limit_after_eof + 10000) die_violation("hang", "the reader is asked for zero bytes forever");
            return 0;
        }
    }
    max_ask = std::max(max_ask, n);
    // every byte of the offered memory must be ours to write
    if (n <= (1u << 16))
        memset(p, 0xA5, n);
    else
    {
        memset(p, 0xA5, 4096);
        memset((char *)p + n - 4096, 0xA5, 4096);
    }
    if (on_call) on_call(*this);
    if ((throw_at_call && calls == throw_at_call) || pos >= throw_at_pos)
    {
        threw = true;
        count("fault:reader-exception");
        throw_fault(throw_kind, token);
    }
    size_t left = pos < data.size() ? data.size() - pos : 0;
    if (endless && left == 0)
    {
        size_t m = std::min<size_t>(n, policy == ONE ? 1 : 4096);
        for (size_t i = 0; i < m; i++) ((char *)p)[i] = tail[(pos - data.size() + i) % tail.size()];
        pos += m;
        if (R) R->ticks++;
        return m;
    }
    if (left == 0)
    {
        if (eofs++)
        {
            after_eof++;
            if (after_eof > limit_after_eof) die_violation("read-after-eof", "the reader keeps being called after it signalled end of file");
        }
        return 0;
    }
    size_t m = std::min(n, left);
    switch (policy)
    {
    case ONE: m = 1; break;
    case CHUNK: m = std::min<size_t>(m, k); break;
    case RANDOM: m = std::min<size_t>(m, 1 + rng.below(k)); break;
    case CUTS:
        for (auto c : cuts)
            if (c > pos)
            {
                m = std::min<size_t>(m, c - pos);
                break;
            }
        break;
    case HEAD:
        if (pos < k) m = 1;
        break;
    default: break;
    }
    if (throw_at_pos != ~size_t(0) && throw_at_pos > pos) m = std::min(m, throw_at_pos - pos);
    memcpy(p, data.data() + pos, m);
    if (m < n && m < left) shorts++;
    trace = mix(trace, pos << 16 ^ m);
    pos += m;
    if (R) R->ticks++;
    return m;
}
void draw_policy(Run &r, SimReader &rd, size_t len)
{
    rd.policy = SimReader::Policy(r.choose(SimReader::POLICIES));
    switch (rd.policy)
    {
    case SimReader::CHUNK: rd.k = r.choose(2) ? 2 + r.choose(16) : 2 + r.choose(300); break;
    case SimReader::RANDOM:
        rd.k   = r.choose(2) ? 2 + r.choose(8) : 2 + r.choose(400);
        rd.rng = Prng(r.choose(0xffffffff));
        break;
    case SimReader::CUTS:
    {
        uint32_t n = 1 + r.choose(4);
        for (uint32_t i = 0; i < n; i++) rd.cuts.push_back(uint32_t(r.choose(uint32_t(len) + 1)));
        std::sort(rd.cuts.begin(), rd.cuts.end());
        break;
    }
    case SimReader::HEAD: rd.k = r.choose(uint32_t(std::min<size_t>(len, 600)) + 1); break;
    default: break;
    }
    static const char *const names[] = {"delivery:whole", "delivery:one-byte", "delivery:fixed-chunks", "delivery:random-chunks", "delivery:cuts", "delivery:dribble-then-whole"};
    count(names[rd.policy]);
}
std::string policy_text(const SimReader &rd)
{
    switch (rd.policy)
    {
    case SimReader::WHOLE: return "whole";
    case SimReader::ONE: return "1 byte at a time";
    case SimReader::CHUNK: return strf("%u bytes at a time", rd.k);
    case SimReader::RANDOM: return strf("random up to %u", rd.k);
    case SimReader::CUTS:
    {
        std::string s = "cut at";
        for (auto c : rd.cuts) s += strf(" %u", c);
        return s;
    }
    default: return strf("first %u bytes one by one, then whole", rd.k);
    }
}
void SimWriter::write(const void *p, size_t n)
{
    heap::Pause pause;
    calls++;
    if (threw)
    {
        after_throw++;
        if (after_throw > 100000) die_violation("callback-after-exception", "the writer keeps being called after it threw");
    }
    if (!p && n) bad_args = true;
    if (on_call) on_call(*this);
    if ((throw_at_call && calls == throw_at_call) || out.size() + n > throw_at_pos)
    {
        threw = true;
        count("fault:writer-exception");
        throw_fault(throw_kind, token);
    }
    if (p) out.append((const char *)p, n);
    if (R) R->ticks++;
    if (out.size() > max_out) die_violation("endless-output", "the writer receives data without end");
}

// ------------------------------------------------------------------ guarded calls
const char *out_name(Out o)
{
    static const char *const n[] = {"ok", "std-exception", "bad-alloc", "io-exception", "other-exception"};
    return n[o];
}
std::string Res::text() const
{
    if (out == OK) return strf("ok(%zu)", ret);
    return std::string(out_name(out)) + "(" + what + ")";
}
Res lib_call(const char *what, size_t work_bytes, const std::function<size_t()> &f)
{
    Res r;
    phase(what);
    const uint64_t s0 = g_steps, lim0 = g_step_limit;
    if (!g_own_step_limit) g_step_limit = g_steps + 400000 + 20000ull * work_bytes;
    auto st0     = heap::st;
    heap::st.max_req = 0;
    auto note    = [&](Out o, const char *w) noexcept
    {
        heap::Pause p;
        r.out  = o;
        r.what = w ? w : "";
    };
    {
        heap::Scope sc;
        try
        {
            r.ret = f();
        }
        catch (const IoFault &e)
        {
            note(IOEXC, throw_kind_name(0));
            r.token = e.token;
        }
        catch (const IoToken &e)
        {
            note(IOEXC, throw_kind_name(e.kind));
            r.token = e.token;
        }
        catch (int t)
        {
            note(IOEXC, throw_kind_name(2));
            r.token = t;
        }
        catch (const Violation &)
        {
            if (!g_own_step_limit) g_step_limit = lim0;
            throw;
        }
        catch (const Discard &)
        {
            if (!g_own_step_limit) g_step_limit = lim0;
            throw;
        }
        catch (const std::bad_alloc &e)
        {
            note(NOMEM, e.what());
        }
        catch (const std::exception &e)
        {
            note(EXC, e.what());
        }
        catch (...)
        {
            note(OTHEREXC, "not a std::exception");
        }
    }
    if (!g_own_step_limit) g_step_limit = lim0;
    r.steps      = g_steps - s0;
    r.news       = heap::st.n - st0.n;
    r.mallocs    = heap::st.mallocs - st0.mallocs;
    r.failed     = heap::st.failed - st0.failed;
    r.max_req    = heap::st.max_req;
    r.too_big    = heap::st.too_big - st0.too_big;
    phase("harness");
    return r;
}
Res serialize_writer(const Msg &m, SimWriter &w, Fmt f)
{
    return lib_call(strf("serialize %s to writer as %s", m.o->name, fmt_name(f)).c_str(), 1 << 16, [&] { return m.o->to_writer(m.p, w, f); });
}
Res serialize_size(const Msg &m, Fmt f)
{
    return lib_call(strf("serialize_size %s as %s", m.o->name, fmt_name(f)).c_str(), 1 << 16, [&] { return m.o->size(m.p, f); });
}
Res serialize_string(const Msg &m, std::string &out, Fmt f, int kind)
{
    return lib_call(strf("serialize %s to container as %s", m.o->name, fmt_name(f)).c_str(), 1 << 16, [&] { return m.o->to_container(m.p, kind, out, f); });
}
Res serialize_buffer(const Msg &m, void *buf, Fmt f, size_t expect)
{
    return lib_call(strf("serialize %s to buffer as %s", m.o->name, fmt_name(f)).c_str(), (1 << 16) + expect, [&] { return m.o->to_buffer(m.p, buf, f); });
}
Res deserialize_reader(Msg &m, SimReader &r, Fmt f, int kind)
{
    return lib_call(strf("deserialize %s from reader as %s", m.o->name, fmt_name(f)).c_str(), r.data.size() + 64, [&] { return m.o->from_reader(m.p, r, f, kind); });
}
Res deserialize_buffer(Msg &m, std::string_view d, Fmt f, int kind)
{
    // exact-size heap copy, so that any access outside the buffer is seen by the sanitizer
    std::unique_ptr<char[]> copy(new char[d.size() ? d.size() : 1]);
    memcpy(copy.get(), d.data(), d.size());
    return lib_call(strf("deserialize %s from buffer as %s", m.o->name, fmt_name(f)).c_str(), d.size() + 64,
                    [&] { return m.o->from_buffer(m.p, d.size() ? copy.get() : copy.get() + 1, d.size(), f, kind); });
}
std::string encode(const Msg &m, Fmt f)
{
    std::string s;
    auto r = serialize_string(m, s, f);
    if (!r.ok()) fail("encode-valid", "serializing a valid %s as %s failed: %s", m.o->name, fmt_name(f), r.text().c_str());
    return s;
}

// ------------------------------------------------------------------ workload
const Ops &pick_type(Run &r, const char *const *names, size_t n) { return ops(names[r.choose(uint32_t(n))]); }
const Ops &pick_any(Run &r)
{
    auto &v = all_ops();
    return v[r.choose(uint32_t(v.size()))];
}
void gen_profile(Run &r, Gen &g, bool finite)
{
    g.finite  = finite;
    g.density = r.choose(4);
    g.size    = r.choose(3);
    if (g_allow_huge && r.coin(1, 120)) g.huge = 1 + r.choose(2);
}
Msg gen_msg(Run &r, const Ops &o, bool finite, int depth, int budget)
{
    Gen g(r);
    gen_profile(r, g, finite);
    g.depth  = depth;
    g.budget = budget;
    Msg m(o);
    o.gen(m.p, g);
    return m;
}
void put_varint(std::string &s, uint64_t v)
{
    while (v >= 0x80)
    {
        s += char(v | 0x80);
        v >>= 7;
    }
    s += char(v);
}
bool split_pb(std::string_view in, std::vector<RawField> &out)
{
    size_t i    = 0;
    auto varint = [&](uint64_t &v) -> bool
    {
        v = 0;
        for (int sh = 0; sh < 70; sh += 7)
        {
            if (i >= in.size()) return false;
            uint8_t b = uint8_t(in[i++]);
            v |= uint64_t(b & 0x7f) << sh;
            if (!(b & 0x80)) return true;
        }
        return false;
    };
    while (i < in.size())
    {
        RawField f;
        f.begin = i;
        uint64_t tag, n;
        if (!varint(tag) || tag >> 3 == 0 || tag >> 3 > 0x1fffffff) return false;
        f.num     = uint32_t(tag >> 3);
        f.wt      = int(tag & 7);
        f.payload = i;
        switch (f.wt)
        {
        case 0:
            if (!varint(n)) return false;
            break;
        case 1: i += 8; break;
        case 5: i += 4; break;
        case 2:
            if (!varint(n)) return false;
            f.payload = i;
            if (n > in.size() - i) return false;
            i += n;
            break;
        default: return false;
        }
        if (i > in.size()) return false;
        f.end = i;
        out.push_back(f);
    }
    return true;
}
static const uint32_t unknown_nums[] = {40, 90, 101, 999, 2047, 2048, 19999, 100000, 262143, 536870910};
std::string unknown_field(Run &r, uint32_t, int depth)
{
    std::string s;
    uint64_t num = unknown_nums[r.choose(10)];
    switch (r.choose(4))
    {
    case 0:
    {
        put_varint(s, num << 3);
        static const uint64_t v[] = {0, 1, 127, 128, 1u << 14, 1u << 21, 0xffffffffull, 1ull << 35, 1ull << 62, ~0ull};
        put_varint(s, v[r.choose(10)]);
        count("unknown:varint");
        break;
    }
    case 1:
        put_varint(s, num << 3 | 5);
        for (int i = 0; i < 4; i++) s += char(r.choose(256));
        count("unknown:fixed32");
        break;
    case 2:
        put_varint(s, num << 3 | 1);
        for (int i = 0; i < 8; i++) s += char(r.choose(256));
        count("unknown:fixed64");
        break;
    default:
    {
        put_varint(s, num << 3 | 2);
        std::string body;
        uint32_t kind = r.choose(depth > 0 ? 7 : 6);
        if (kind == 6)
        {
            uint32_t n = r.choose(4);
            for (uint32_t i = 0; i < n; i++) body += unknown_field(r, 0, depth - 1);
            count("unknown:nested");
        }
        else
        {
            static const uint32_t lens[] = {0, 1, 12, 127, 128, 129};
            uint32_t n                   = kind == 5 ? 100 + r.choose(900) : lens[kind];
            Prng p(r.choose(0xffffffff));
            for (uint32_t i = 0; i < n; i++) body += char(p.next());
            count("unknown:length-delimited");
        }
        put_varint(s, body.size());
        s += body;
    }
    }
    return s;
}
std::string mutate_pb(Run &r, const std::string &in, bool unknown, bool shuffle)
{
    std::vector<RawField> f;
    if (!split_pb(in, f)) return in;
    std::vector<size_t> order(f.size());
    std::iota(order.begin(), order.end(), 0);
    if (shuffle && f.size() > 1 && r.choose(2))
    {
        for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[r.choose(uint32_t(i + 1))]);
        // fields with the same number keep their relative order
        std::map<uint32_t, std::vector<size_t>> by;
        for (size_t i : order) by[f[i].num].push_back(i);
        for (auto &[n, v] : by) std::sort(v.rbegin(), v.rend());
        for (auto &i : order)
        {
            auto &v = by[f[i].num];
            i       = v.back();
            v.pop_back();
        }
        count("wire:fields-shuffled");
    }
    std::string out;
    for (size_t k = 0; k <= order.size(); k++)
    {
        if (unknown && r.coin(1, 3)) out += unknown_field(r, 0, 2);
        if (k < order.size()) out += in.substr(f[order[k]].begin, f[order[k]].end - f[order[k]].begin);
    }
    return out;
}
std::string damage(Run &r, const std::string &in)
{
    std::string s = in;
    uint32_t n    = 1 + r.choose(3);
    for (uint32_t i = 0; i < n; i++)
    {
        uint32_t len = uint32_t(s.size());
        auto at      = [&] { return r.choose(len ? len : 1); };
        switch (r.choose(9))
        {
        case 0:
            if (!len) break;
            s[at()] ^= char(1 << r.choose(8));
            count("damage:bit-flip");
            break;
        case 1:
            if (!len) break;
            s[at()] = char(r.choose(256));
            count("damage:byte");
            break;
        case 2:
        {
            if (!len) break;
            uint32_t a = at(), k = 1 + r.choose(std::min(len - a, 40u));
            s.erase(a, k);
            count("damage:lost-range");
            break;
        }
        case 3:
        {
            if (!len) break;
            uint32_t a = at(), k = 1 + r.choose(std::min(len - a, 40u));
            s.insert(at(), s.substr(a, k));
            count("damage:duplicated-range");
            break;
        }
        case 4:
        {
            if (len < 2) break;
            uint32_t a = at(), b = at(), k = 1 + r.choose(16);
            for (uint32_t j = 0; j < k && a + j < len && b + j < len; j++) std::swap(s[a + j], s[b + j]);
            count("damage:swapped-ranges");
            break;
        }
        case 5:
            s.resize(r.choose(len + 1));
            count("damage:torn-tail");
            break;
        case 6:
        {
            std::string x;
            uint32_t k = 1 + r.choose(12);
            for (uint32_t j = 0; j < k; j++) x += char(r.choose(256));
            s.insert(r.choose(len + 1), x);
            count("damage:inserted-bytes");
            break;
        }
        case 7:
        {
            if (!len) break;
            uint32_t a = at(), k = 1 + r.choose(10);
            for (uint32_t j = 0; j < k && a + j < len; j++) s[a + j] = char(0xff);
            count("damage:ff-run");
            break;
        }
        default:
        {
            if (!len) break;
            uint32_t a = at();
            s[a]       = char(uint8_t(s[a]) + (r.choose(2) ? 1 : 255));
            count("damage:off-by-one-byte");
        }
        }
    }
    return s;
}

// ------------------------------------------------------------------ JSON re-layout
namespace
{
struct J
{
    char kind = 0; // { [ s(tring raw incl. quotes) v(alue raw)
    std::string raw;
    std::vector<std::string> keys; // raw incl. quotes
    std::vector<J> items;          // member values or array items
};
struct JP
{
    std::string_view s;
    size_t i  = 0;
    bool bad  = false;
    void ws()
    {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++;
    }
    std::string str()
    {
        size_t b = i++;
        while (i < s.size() && s[i] != '"') i += s[i] == '\\' ? 2 : 1;
        if (i >= s.size()) return bad = true, "";
        i++;
        return std::string(s.substr(b, i - b));
    }
    J val()
    {
        J j;
        ws();
        if (bad || i >= s.size()) return bad = true, j;
        if (s[i] == '{')
        {
            j.kind = '{';
            i++;
            ws();
            if (i < s.size() && s[i] == '}') return i++, j;
            for (;;)
            {
                ws();
                if (i >= s.size() || s[i] != '"') return bad = true, j;
                auto k = str();
                ws();
                if (bad || i >= s.size() || s[i] != ':') return bad = true, j;
                i++;
                j.keys.push_back(k);
                j.items.push_back(val());
                ws();
                if (bad || i >= s.size()) return bad = true, j;
                if (s[i] == ',')
                {
                    i++;
                    continue;
                }
                if (s[i] == '}') return i++, j;
                return bad = true, j;
            }
        }
        if (s[i] == '[')
        {
            j.kind = '[';
            i++;
            ws();
            if (i < s.size() && s[i] == ']') return i++, j;
            for (;;)
            {
                j.items.push_back(val());
                ws();
                if (bad || i >= s.size()) return bad = true, j;
                if (s[i] == ',')
                {
                    i++;
                    continue;
                }
                if (s[i] == ']') return i++, j;
                return bad = true, j;
            }
        }
        if (s[i] == '"')
        {
            j.kind = 's';
            j.raw  = str();
            return j;
        }
        j.kind   = 'v';
        size_t b = i;
        while (i < s.size() && !strchr(",]} \n\t\r", s[i])) i++;
        j.raw = std::string(s.substr(b, i - b));
        if (j.raw.empty()) bad = true;
        return j;
    }
};
#include "names.inc"
struct Layout
{
    Run &r;
    Prng p;
    uint32_t ws_rate; // out of 16
    bool unknown, escapes, shuffle;
    std::string out;
    void ws()
    {
        if (p.below(16) >= ws_rate) return;
        static const char *const w[] = {" ", "\n", "\t", "  ", "\r\n", "\n        "};
        out += w[p.below(6)];
        if (p.below(40) == 0) out.append(200 + p.below(200), ' ');
    }
    void string(const std::string &raw, bool plain)
    {
        if (!escapes || plain || p.below(2))
        {
            out += raw;
            return;
        }
        // re-escape: some plain ASCII characters as \u00XX, / as \/
        for (size_t i = 0; i < raw.size(); i++)
        {
            char c = raw[i];
            if (c == '\\')
            {
                uint32_t n = i + 1 < raw.size() && raw[i + 1] == 'u' ? 6 : 2;
                out += raw.substr(i, n);
                i += n - 1;
                continue;
            }
            if (i && i + 1 < raw.size() && c >= 32 && c < 127 && c != '"' && p.below(5) == 0)
                out += strf("\\u%04x", c);
            else if (c == '/')
                out += "\\/";
            else
                out += c;
        }
    }
    // members of the schema corpus that hold text (neither base64 nor enum names)
    static bool text_member(const std::string &key)
    {
        for (auto n : TEXT_NAMES)
            if (key == "\"" + std::string(n) + "\"") return true;
        return false;
    }
    void value(const J &j, const std::string &key, bool in_map, bool text = false)
    {
        if (!in_map) text = text_member(key);
        switch (j.kind)
        {
        case '{':
        {
            bool map = false;
            if (!in_map)
                for (auto k : MAP_NAMES) map |= key == "\"" + std::string(k) + "\"";
            std::vector<size_t> order(j.keys.size());
            std::iota(order.begin(), order.end(), 0);
            if (shuffle)
                for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[p.below(uint32_t(i))]);
            out += '{';
            bool first = true;
            auto sep   = [&]
            {
                if (!first) out += ',';
                first = false;
                ws();
            };
            for (size_t k = 0; k <= order.size(); k++)
            {
                if (unknown && !map && r.coin(1, 4))
                {
                    sep();
                    static const char *const keys[] = {"\"zz\"", "\"unknown_member\"", "\"\"", "\"a b\"", "\"q\\\"uote\"", "\"back\\\\\"", "\"\\u0041x\"", "\"n\\u00e9w\""};
                    uint32_t kk = r.choose(9);
                    if (kk == 8)
                        out += "\"" + std::string(1 + p.below(300), 'k') + (p.below(2) ? "_\"" : "\\\"_\"");
                    else
                        out += keys[kk];
                    ws();
                    out += ':';
                    ws();
                    out += json_value(r, 2);
                    ws();
                    count("unknown:json-member");
                }
                if (k == order.size()) break;
                sep();
                const auto &kr = j.keys[order[k]];
                const auto &v  = j.items[order[k]];
                out += kr;
                ws();
                out += ':';
                ws();
                value(v, kr, map, map && text);
                ws();
            }
            if (first) ws();
            out += '}';
            break;
        }
        case '[':
            out += '[';
            for (size_t k = 0; k < j.items.size(); k++)
            {
                if (k) out += ',';
                ws();
                value(j.items[k], "", true, text);
                ws();
            }
            out += ']';
            break;
        case 's': string(j.raw, !text); break;
        default: out += j.raw;
        }
    }
};
} // namespace
// around the sizes of small internal buffers
static uint32_t edge_size(Run &r)
{
    static const uint32_t b[] = {256, 128, 64, 512, 1024};
    uint32_t k = r.choose(8);
    return b[k > 4 ? 0 : k] - 8 + r.choose(12);
}
std::string json_value(Run &r, int depth)
{
    switch (r.choose(depth > 0 ? 11 : 9))
    {
    case 0: return "null";
    case 1: return "true";
    case 2: return "false";
    case 3: return strf("%d", int(r.choose(200000)) - 100000);
    case 4:
    {
        static const char *const n[] = {"-12.5e-3", "0", "-0", "1E5", "18446744073709551615", "1e400", "-1e-400", "123456789012345678901234567890123456789012345", "0.1000000000000000055511151231257827021181583404541015625",
                                        "-12345678901234567890123456789.5e+10", "1.7976931348623157e308"};
        if (r.choose(8) == 7) return strf("%s%se%u", std::string(1 + r.choose(6), '9').c_str(), ("." + std::string(20 + r.choose(16), '7')).c_str(), r.choose(300));
        return n[r.choose(11)];
    }
    case 5: return "\"\"";
    case 6:
    {
        static const char *const s[] = {"\"text\"", "\"quo\\\"te\"", "\"\\\\\"", "\"\\u00e9\\ud83d\\ude00\"", "\"{[,:]}\"", "\"tail\\\\\\\"\"", "\"\\n\\t\\/\""};
        return s[r.choose(7)];
    }
    case 7: return "\"" + std::string(r.coin(1, 2) ? edge_size(r) : 200 + r.choose(400), 'u') + "\"";
    case 8:
    {
        std::string s = "\"";
        if (r.coin(1, 2)) // plain runs around the size of a reader's buffer, with an escape right behind
        {
            static const char *const e[] = {"\\\"", "\\\\", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\/"};
            for (uint32_t i = r.range(1, 3); i--;) s += std::string(edge_size(r), 'u') + e[r.choose(6)];
            return s + (r.coin(1, 2) ? "v\"" : "\"");
        }
        uint32_t n = 100 + r.choose(200);
        for (uint32_t i = 0; i < n; i++) s += i % 3 ? "\\\\" : "\\\"";
        return s + "\"";
    }
    case 9:
    {
        std::string s = "[";
        uint32_t n    = r.choose(4);
        for (uint32_t i = 0; i < n; i++) s += (i ? "," : "") + json_value(r, depth - 1);
        return s + "]";
    }
    default:
    {
        std::string s = "{";
        uint32_t n    = r.choose(4);
        for (uint32_t i = 0; i < n; i++) s += strf("%s\"k%u\":", i ? ", " : "", i) + json_value(r, depth - 1);
        return s + "}";
    }
    }
}
std::string relayout_json(Run &r, const std::string &in, bool unknown, bool escapes)
{
    JP p{in};
    J j = p.val();
    if (p.bad) return in;
    Layout l{r, Prng(1), 0, unknown, escapes, false, {}};
    l.ws_rate = r.choose(4) * 5;
    l.shuffle = r.choose(2);
    l.p       = Prng(r.choose(0xffffffff));
    l.ws();
    if (l.ws_rate) count("json:white-space");
    l.out.clear(); // white space before the document is not part of it
    l.value(j, "", false);
    return l.out;
}
} // namespace sim
