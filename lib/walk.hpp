// Non-template parts of value inspection and generation.
#pragma once
#include "../sim/engine.hpp"
#include <algorithm>
#include <string>
#include <string_view>
#include <vector>
namespace sim
{
bool utf8_valid(std::string_view s); // independent validator (RFC 3629 table)
struct Walk
{
    std::string out;
    std::vector<const char *> path;
    size_t non_finite = 0;
    std::string bad_utf8;   // path of the first invalid string
    std::string over_limit; // path of the first value over its declared limit
    size_t strings = 0, limited = 0;
    std::string where() const
    {
        std::string s;
        for (auto p : path) (s += s.empty() ? "" : ".") += p;
        return s;
    }
    void string(std::string_view s, uint32_t ms, bool key)
    {
        strings++;
        if (bad_utf8.empty() && !utf8_valid(s)) bad_utf8 = where() + (key ? "(key)=" : "=") + quote(s, 60);
        if (ms) limited++;
        if (ms && s.size() > ms && over_limit.empty()) over_limit = where() + strf(" size %zu > %u", s.size(), ms);
        out += quote(s, ~size_t(0));
    }
    void bytes(std::string_view s, uint32_t ms)
    {
        if (ms) limited++;
        if (ms && s.size() > ms && over_limit.empty()) over_limit = where() + strf(" size %zu > %u", s.size(), ms);
        out += "x" + hex(s, ~size_t(0));
    }
    void count(size_t n, uint32_t mc)
    {
        if (mc) limited++;
        if (mc && n > mc && over_limit.empty()) over_limit = where() + strf(" count %zu > %u", n, mc);
    }
    Walk sub() const
    {
        Walk s;
        s.path = path;
        return s;
    }
    void merge(const Walk &s)
    {
        non_finite += s.non_finite;
        strings += s.strings;
        limited += s.limited;
        if (bad_utf8.empty()) bad_utf8 = s.bad_utf8;
        if (over_limit.empty()) over_limit = s.over_limit;
    }
};
struct Gen
{
    Run &r;
    int depth       = 4;
    int budget      = 60;
    bool finite     = true;   // no NaN, infinity or negative zero (the reference reads -0 in JSON as 0)
    bool no_default = false;  // implicit-presence fields never engaged with their default (reference peer drops those)
    bool empty_required = false; // out: a required string or bytes member was left empty
    bool poison      = false;  // some strings are not UTF-8
    uint32_t exceed  = 0;      // how far declared limits may be exceeded
    const uint32_t *oneof_ms = nullptr; // size limits of the members of the oneof being filled
    const char *mark = nullptr; // put into every string that has room
    uint32_t density = 2;     // 0 sparse .. 3 full
    uint32_t size    = 1;     // 0 small strings, 1 mixed, 2 large
    uint32_t huge    = 0;     // how many values of unlimited size may become very large
    explicit Gen(Run &run) : r(run) {}
    bool present()
    {
        if (budget <= 0) return false;
        switch (density)
        {
        case 0: return r.coin(1, 6);
        case 1: return r.coin(1, 3);
        case 2: return r.coin(2, 3);
        default: return true;
        }
    }
    bool at_limit() { return r.coin(1, 4); }
    uint32_t count();
    uint32_t length(uint32_t cap, bool binary = false);
    std::string utf8(uint32_t cap);
    std::string utf8_exact(size_t n);
    std::string raw(uint32_t cap);
    std::string raw_exact(size_t n);
};
} // namespace sim
