// Instantiates the public API of the code under test for one message type.
#pragma once
#include "fields.hpp"
#include "ops.hpp"
#include <map>
#include <spb/json.hpp>
#include <spb/pb.hpp>
#include <unordered_map>
namespace sim
{
template <class T> struct Impl
{
    static spb::pb::serialize_options so(Fmt f) { return {.delimited = f == PBD}; }
    static spb::pb::deserialize_options dopt(Fmt f) { return {.delimited = f == PBD}; }
    static void *make() { return new T{}; }
    static void destroy(void *p) { delete (T *)p; }
    static void assign(void *d, const void *s) { copy_val(*(T *)d, *(const T *)s); }
    static void reset(void *d) { *(T *)d = T{}; }
    static void show_(const void *p, Walk &w) { show(w, *(const T *)p, 0u, 0u); }
    static void gen_(void *p, Gen &g) { gen(g, *(T *)p, 0u, 0u, false); }
    static size_t size(const void *p, Fmt f)
    {
        const T &m = *(const T *)p;
        return f == JSON ? spb::json::serialize_size(m) : f == PBD ? spb::pb::serialize_size(m, so(f)) : spb::pb::serialize_size(m);
    }
    static size_t to_writer(const void *p, SimWriter &w, Fmt f)
    {
        const T &m = *(const T *)p;
        auto fn    = [&w](const void *d, size_t n) { w.write(d, n); };
        return f == JSON ? spb::json::serialize(m, fn) : f == PBD ? spb::pb::serialize(m, fn, so(f)) : spb::pb::serialize(m, fn);
    }
    static size_t to_buffer(const void *p, void *b, Fmt f)
    {
        const T &m = *(const T *)p;
        return f == JSON ? spb::json::serialize(m, b) : f == PBD ? spb::pb::serialize(m, b, so(f)) : spb::pb::serialize(m, b);
    }
    template <class C> static size_t into(const T &m, C &c, Fmt f)
    {
        return f == JSON ? spb::json::serialize(m, c) : spb::pb::serialize(m, c, so(f));
    }
    static size_t to_container(const void *p, int kind, std::string &out, Fmt f)
    {
        const T &m = *(const T *)p;
        switch (kind)
        {
        case 0: return into(m, out, f);
        case 1:
        {
            std::vector<std::byte> v((const std::byte *)out.data(), (const std::byte *)out.data() + out.size());
            size_t n = into(m, v, f);
            out.assign((const char *)v.data(), v.size());
            return n;
        }
        case 2:
            out = f == JSON ? spb::json::serialize(m) : spb::pb::serialize(m, so(f));
            return out.size();
        default:
        {
            auto v = f == JSON ? spb::json::serialize<std::vector<uint8_t>>(m) : spb::pb::serialize<std::vector<uint8_t>>(m, so(f));
            out.assign((const char *)v.data(), v.size());
            return out.size();
        }
        }
    }
    static size_t from_reader(void *p, SimReader &r, Fmt f, int kind)
    {
        T &m    = *(T *)p;
        auto fn = [&r](void *d, size_t n) { return r.read(d, n); };
        if (kind == 1)
        {
            if (f == JSON)
                m = spb::json::deserialize<T>(spb::io::reader(fn));
            else
                m = spb::pb::deserialize<T>(spb::io::reader(fn), dopt(f));
            return ~size_t(0);
        }
        return f == JSON ? spb::json::deserialize(m, spb::io::reader(fn))
               : f == PBD ? spb::pb::deserialize(m, spb::io::reader(fn), dopt(f))
                          : spb::pb::deserialize(m, spb::io::reader(fn));
    }
    static size_t from_buffer(void *p, const void *d, size_t n, Fmt f, int kind)
    {
        T &m = *(T *)p;
        if (kind == 0) return f == JSON ? spb::json::deserialize(m, d, n) : spb::pb::deserialize(m, d, n, dopt(f));
        if (kind == 1)
        {
            std::string s((const char *)d, n);
            return f == JSON ? spb::json::deserialize(m, s) : spb::pb::deserialize(m, s, dopt(f));
        }
        if (kind == 2)
        {
            std::vector<std::byte> s((const std::byte *)d, (const std::byte *)d + n);
            return f == JSON ? spb::json::deserialize(m, s) : spb::pb::deserialize(m, s, dopt(f));
        }
        std::string_view s((const char *)d, n);
        if (f == JSON)
            m = spb::json::deserialize<T>(s);
        else
            m = spb::pb::deserialize<T>(s, dopt(f));
        return ~size_t(0);
    }
};
template <class T> void add_ops(const char *proto, bool gpb, bool heap_free)
{
    using I = Impl<T>;
    all_ops().push_back(Ops{Fields<T>::name, proto, gpb, heap_free, I::make, I::destroy, I::assign, I::reset, I::show_, I::gen_,
                            I::size, I::to_writer, I::to_buffer, I::to_container, I::from_reader, I::from_buffer});
}
} // namespace sim
