// Type-erased access to one message type, simulated peers (readers, writers) and guarded library calls.
#pragma once
#include <ios>
#include <new>
#include <stdexcept>
#include <system_error>
#include "../sim/engine.hpp"
#include "../sim/heap.hpp"
#include "walk.hpp"
#include <cstddef>
#include <exception>
#include <memory>
#include <optional>

namespace sim
{
struct IoFault // thrown by simulated peers; deliberately not derived from std::exception
{
    int token;
};
struct IoToken
{
    int token, kind;
    IoToken(int t, int k) : token(t), kind(k) {}
};
// exceptions that derive from what libraries like to catch
template <class B, int K> struct IoErr : B, IoToken
{
    template <class... A> explicit IoErr(int t, A &&...a) : B(a...), IoToken(t, K) {}
    const char *what() const noexcept override { return "simulated i/o error"; }
};
constexpr uint32_t N_THROW = 9;

struct SimReader
{
    std::string_view data;
    size_t pos = 0;
    // delivery
    enum Policy
    {
        WHOLE,
        ONE,
        CHUNK,
        RANDOM,
        CUTS,
        HEAD,
        POLICIES
    } policy  = WHOLE;
    uint32_t k = 1;
    Prng rng{1};
    std::vector<uint32_t> cuts; // sorted
    bool endless   = false;     // after data, keep repeating `tail`
    std::string_view tail;
    // faults
    uint64_t throw_at_call = 0; // 1-based; 0 never
    size_t throw_at_pos    = ~size_t(0);
    int throw_kind         = 0; // see throw_kind_name
    int token              = 1000;
    // observation
    uint64_t trace = 0; // hash of the delivery
    uint64_t shorts = 0; // reads that got less than asked although more data was coming
    uint64_t calls = 0, eofs = 0, after_eof = 0, after_throw = 0;
    bool threw = false, bad_args = false;
    uint64_t limit_after_eof = 64;
    size_t max_ask           = 0;
    std::function<void(SimReader &)> on_call; // nested activity
    size_t read(void *p, size_t n);
    void set(std::string_view d) { data = d; }
};
// draws a delivery policy; `len` is the length of the data
void draw_policy(Run &r, SimReader &rd, size_t len);
std::string policy_text(const SimReader &rd);

struct SimWriter
{
    std::string out;
    uint64_t calls         = 0;
    uint64_t throw_at_call = 0;
    size_t throw_at_pos    = ~size_t(0);
    int throw_kind         = 0;
    int token              = 1000;
    bool threw = false, bad_args = false;
    uint64_t after_throw = 0;
    size_t max_out       = 64u << 20;
    std::function<void(SimWriter &)> on_call;
    void write(const void *p, size_t n);
};

enum Fmt
{
    PB,
    PBD, // delimited
    JSON
};
inline const char *fmt_name(Fmt f) { return f == PB ? "pb" : f == PBD ? "pb-delimited" : "json"; }

struct Ops
{
    const char *name;  // package.Message
    const char *proto; // schema file
    bool gpb, heap_free;
    void *(*make)();
    void (*destroy)(void *);
    void (*assign)(void *dst, const void *src); // deep copy
    void (*reset)(void *);                      // dst = T{}
    void (*show)(const void *, Walk &);
    void (*gen)(void *, Gen &);
    // serialize: size / writer / raw buffer / container (kind 0 std::string&, 1 std::vector<std::byte>&, 2 return std::string, 3 return vector<uint8_t>)
    size_t (*size)(const void *, Fmt);
    size_t (*to_writer)(const void *, SimWriter &, Fmt);
    size_t (*to_buffer)(const void *, void *, Fmt);
    size_t (*to_container)(const void *, int kind, std::string &out, Fmt);
    // deserialize: reader (kind 0 by reference, 1 returned) / buffer (kind 0 ptr+size, 1 string, 2 vector<byte>, 3 returned from string)
    size_t (*from_reader)(void *, SimReader &, Fmt, int kind);
    size_t (*from_buffer)(void *, const void *, size_t, Fmt, int kind);
};
std::vector<Ops> &all_ops();
const Ops &ops(const char *name);

struct Msg
{
    const Ops *o;
    void *p;
    explicit Msg(const Ops &ops) : o(&ops), p(ops.make()) {}
    Msg(const Msg &m) : o(m.o), p(m.o->make()) { o->assign(p, m.p); }
    Msg(Msg &&m) noexcept : o(m.o), p(m.p) { m.p = nullptr; }
    Msg &operator=(Msg &&m) noexcept
    {
        std::swap(o, m.o);
        std::swap(p, m.p);
        return *this;
    }
    Msg &operator=(const Msg &) = delete;
    ~Msg()
    {
        if (p) o->destroy(p);
    }
    std::string text() const
    {
        Walk w;
        o->show(p, w);
        return w.out;
    }
    Walk walk() const
    {
        Walk w;
        o->show(p, w);
        return w;
    }
    bool operator==(const Msg &b) const { return text() == b.text(); }
};

enum Out
{
    OK,
    EXC,     // std::exception
    NOMEM,   // std::bad_alloc (also std::length_error)
    IOEXC,   // simulated i/o fault
    OTHEREXC // anything else
};
const char *out_name(Out);
struct Res
{
    Out out = OK;
    size_t ret = 0;
    std::string what;
    int token      = -1;
    uint64_t news  = 0, mallocs = 0, failed = 0, too_big = 0;
    size_t max_req = 0; // largest single request to the allocator
    uint64_t steps = 0;
    bool ok() const { return out == OK; }
    std::string text() const;
};
extern bool g_own_step_limit; // the world sets g_step_limit itself (interleaved calls)
inline const char *throw_kind_name(int k)
{
    static const char *N[] = {"IoFault", "std::exception", "int", "std::runtime_error", "std::out_of_range", "std::system_error", "std::bad_alloc", "std::ios_base::failure", "std::invalid_argument"};
    return N[k];
}
// runs f as one library call: allocator scope, step budget, exceptions classified
Res lib_call(const char *what, size_t work_bytes, const std::function<size_t()> &f);

Res serialize_writer(const Msg &m, SimWriter &w, Fmt f);
Res serialize_size(const Msg &m, Fmt f);
Res serialize_string(const Msg &m, std::string &out, Fmt f, int kind = 0);
Res serialize_buffer(const Msg &m, void *buf, Fmt f, size_t expect);
Res deserialize_reader(Msg &m, SimReader &r, Fmt f, int kind = 0);
Res deserialize_buffer(Msg &m, std::string_view d, Fmt f, int kind = 0);
// must succeed: intact value, no faults
std::string encode(const Msg &m, Fmt f);

// ---- workload helpers
const Ops &pick_type(Run &r, const char *const *names, size_t n);
const Ops &pick_any(Run &r);
void gen_profile(Run &r, Gen &g, bool finite);
extern bool g_allow_huge; // very large values are part of the workload (set by the world)
Msg gen_msg(Run &r, const Ops &o, bool finite, int depth = 4, int budget = 60);
// structural changes to encoded protobuf that keep it well formed (shuffled fields, unknown fields, split runs)
std::string mutate_pb(Run &r, const std::string &in, bool unknown, bool shuffle);
// stored-byte damage
std::string damage(Run &r, const std::string &in);
// JSON re-layout: white space, unknown members (keeps the meaning)
std::string relayout_json(Run &r, const std::string &in, bool unknown, bool escapes);
std::string json_value(Run &r, int depth);
struct RawField
{
    uint32_t num;
    int wt;
    size_t begin, payload, end; // whole field [begin,end), payload start
};
bool split_pb(std::string_view in, std::vector<RawField> &out);
void put_varint(std::string &s, uint64_t v);
std::string unknown_field(Run &r, uint32_t min_num, int depth);
} // namespace sim
