// Type-driven inspection and generation of message values. The only knowledge about a message type is
// the list of its members (tables_*.hpp); everything else follows from the C++ type of each member.
#pragma once
#include "../sim/engine.hpp"
#include "walk.hpp"
#include <array>
#include <bit>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <variant>
#include <vector>

namespace sim
{
template <class T> struct Fields;
template <class T> struct EnumVals;

template <class T> concept HasFields = requires { Fields<T>::name; };
template <class T> concept StringLike = requires(T t) { t.data(); t.size(); } && std::is_same_v<typename T::value_type, char>;
template <class T> concept BytesLike = requires(T t) { t.data(); t.size(); } && std::is_same_v<typename T::value_type, std::byte>;
template <class T> concept MapLike = requires { typename T::mapped_type; };
template <class T> concept OptionalLike = requires(T t) { t.has_value(); t.reset(); };
template <class T> struct is_uptr : std::false_type {};
template <class T> struct is_uptr<std::unique_ptr<T>> : std::true_type {};
template <class T> struct is_variant : std::false_type {};
template <class... A> struct is_variant<std::variant<A...>> : std::true_type {};
template <class T> concept RepeatedLike = requires(T t) { t.emplace_back(); t.begin(); } && !StringLike<T> && !BytesLike<T>;
template <class T> concept FixedArray =
    requires(T t) { t[0]; t.size(); t.begin(); } && !RepeatedLike<T> && !StringLike<T> && !BytesLike<T> && !MapLike<T>;
template <class T> concept Resizable = requires(T t) { t.resize(1); };

template <class T> void show(Walk &w, const T &v, uint32_t ms, uint32_t mc, bool key = false);
template <class T> void gen(Gen &g, T &v, uint32_t ms, uint32_t mc, bool implicit);
template <class T> void copy_val(T &d, const T &s);
template <class T> T gen_int(Gen &g, int bits = sizeof(T) * 8);

struct ShowV
{
    Walk &w;
    void name(const char *n)
    {
        w.out += n;
        w.out += ":";
    }
    template <class F> void field(const char *n, const F &f, uint32_t ms, uint32_t mc, bool)
    {
        name(n);
        w.path.push_back(n);
        show(w, f, ms, mc);
        w.path.pop_back();
        w.out += ";";
    }
    template <class F> void oneof(const char *n, const F &f, std::initializer_list<uint32_t> ms) { field(n, f, ms.begin()[f.index()], 0, false); }
    template <class G, class S> void bits(const char *n, int, G get, S)
    {
        name(n);
        w.out += std::to_string((long long)get()) + ";";
    }
};
struct GenV
{
    Gen &g;
    template <class F> void field(const char *, F &f, uint32_t ms, uint32_t mc, bool imp)
    {
        gen(g, f, ms, mc, imp);
        if constexpr ((StringLike<F> || BytesLike<F>) && Resizable<F>) // a plain member: required
        {
            if (f.size() == 0)
            {
                if (g.no_default)
                    f.resize(1), f[0] = typename F::value_type('r');
                else
                    g.empty_required = true;
            }
        }
    }
    template <class F> void oneof(const char *, F &f, std::initializer_list<uint32_t> ms)
    {
        g.oneof_ms = ms.begin();
        gen(g, f, 0, 0, false);
        g.oneof_ms = nullptr;
    }
    template <class G, class S> void bits(const char *, int n, G get, S set)
    {
        using B = decltype(get());
        set(gen_int<B>(g, n));
    }
};
struct CopyV
{
    std::vector<const void *> &p;
    size_t i = 0;
    bool collect;
    std::vector<long long> vals;
    size_t bi = 0;
    template <class F> void field(const char *, F &f, uint32_t, uint32_t, bool)
    {
        if (collect)
            p.push_back(&f);
        else if constexpr (!std::is_const_v<F>)
            copy_val(f, *(const std::remove_const_t<F> *)p[i++]);
    }
    template <class F> void oneof(const char *n, F &f, std::initializer_list<uint32_t>) { field(n, f, 0, 0, false); }
    template <class G, class S> void bits(const char *, int, G get, S set)
    {
        if (collect)
            vals.push_back((long long)get());
        else
            set(vals[bi++]);
    }
};
// ------------------------------------------------------------------ canonical text
template <class T> void show(Walk &w, const T &v, uint32_t ms, uint32_t mc, bool key)
{
    if constexpr (std::is_same_v<T, std::monostate>)
        w.out += "unset";
    else if constexpr (std::is_same_v<T, bool>)
        w.out += v ? "true" : "false";
    else if constexpr (std::is_enum_v<T>)
        w.out += "E" + std::to_string((long long)v);
    else if constexpr (std::is_floating_point_v<T>)
    {
        if constexpr (sizeof(T) == 4)
            w.out += strf("f%08x", std::bit_cast<uint32_t>(v));
        else
            w.out += strf("d%016lx", std::bit_cast<uint64_t>(v));
        if (!std::isfinite(v)) w.non_finite++;
    }
    else if constexpr (std::is_integral_v<T>)
    {
        if constexpr (std::is_signed_v<T>)
            w.out += std::to_string((long long)v);
        else
            w.out += std::to_string((unsigned long long)v);
    }
    else if constexpr (StringLike<T>)
        w.string({v.data(), v.size()}, ms, key);
    else if constexpr (BytesLike<T>)
        w.bytes({(const char *)v.data(), v.size()}, ms);
    else if constexpr (OptionalLike<T>)
    {
        if (v.has_value())
        {
            w.out += "+";
            show(w, *v, ms, mc);
        }
        else
            w.out += "-";
    }
    else if constexpr (is_uptr<T>::value)
    {
        if (v)
        {
            w.out += "+";
            show(w, *v, ms, mc);
        }
        else
            w.out += "-";
    }
    else if constexpr (is_variant<T>::value)
    {
        w.out += "<" + std::to_string(v.index()) + ":";
        std::visit([&](auto &x) { show(w, x, ms, mc); }, v);
        w.out += ">";
    }
    else if constexpr (MapLike<T>)
    {
        std::vector<std::string> items;
        for (auto &[k, x] : v)
        {
            Walk s = w.sub();
            show(s, k, 0, 0, true);
            s.out += "=>";
            show(s, x, 0, 0);
            w.merge(s);
            items.push_back(s.out);
        }
        std::sort(items.begin(), items.end());
        w.out += "(";
        for (auto &i : items) w.out += i + ",";
        w.out += ")";
    }
    else if constexpr (RepeatedLike<T> || FixedArray<T>)
    {
        if constexpr (RepeatedLike<T>) w.count(v.size(), mc);
        w.out += "[";
        for (const auto &x : v)
        {
            if constexpr (std::is_same_v<typename T::value_type, bool>)
                show(w, bool(x), ms, 0u);
            else
                show(w, x, ms, 0u);
            w.out += ",";
        }
        w.out += "]";
    }
    else
    {
        static_assert(HasFields<T>);
        w.out += "{";
        Fields<T>::visit(v, ShowV{w});
        w.out += "}";
    }
}

// ------------------------------------------------------------------ generation
template <class T> T gen_int(Gen &g, int bits)
{
    const uint64_t top = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    auto fit           = [&](uint64_t x) -> T
    {
        x &= top;
        if constexpr (std::is_signed_v<T>)
        {
            if (bits < 64 && (x >> (bits - 1))) x |= ~top;
        }
        return T(x);
    };
    switch (g.r.choose(10))
    {
    case 0: return 0;
    case 1: return fit(1);
    case 2: return fit(g.r.choose(256));
    case 3: return fit(~0ull); // -1 or max
    case 4: return fit(1ull << (bits - 1)); // min or msb
    case 5: return fit((1ull << (bits - 1)) - 1);
    case 6: // varint length boundaries
    {
        int k      = 1 + int(g.r.choose(9));
        uint64_t b = 1ull << (7 * k > 63 ? 63 : 7 * k);
        return fit(b - 1 + g.r.choose(3) - (g.r.choose(2) ? 2 * b : 0));
    }
    case 7: return fit(uint64_t(g.r.choose(100000)));
    case 8: return fit(-uint64_t(g.r.choose(100000)));
    default: return fit(g.r.bits64());
    }
}
template <class T> T gen_float(Gen &g)
{
    using L = std::numeric_limits<T>;
    T v     = 0;
    switch (g.r.choose(12))
    {
    case 0: v = 0; break;
    case 1: v = 1; break;
    case 2: v = T(-1.5); break;
    case 3: v = T(int(g.r.choose(2000)) - 1000) / T(8); break;
    case 4: v = L::max(); break;
    case 5: v = L::lowest(); break;
    case 6: v = L::min(); break;
    case 7: v = L::denorm_min(); break;
    case 8: v = g.finite ? T(0.1) : T(-0.0); break;
    case 9: v = g.finite ? T(1e10) : (g.r.choose(2) ? L::infinity() : -L::infinity()); break;
    case 10:
        if constexpr (sizeof(T) == 4)
            v = std::bit_cast<T>(uint32_t(g.r.bits64()));
        else
            v = std::bit_cast<T>(g.r.bits64());
        if (g.finite && !std::isfinite(v)) v = T(3.25);
        if (std::isnan(v)) v = L::quiet_NaN();
        break;
    default: v = T(g.r.choose(1u << 30)) * T(1e-5); break;
    }
    if (g.no_default && (v == 0 || (sizeof(T) == 4 && std::abs(v) > T(3.4e38)))) v = T(0.25); // -0 and FLT_MAX are mangled by the reference JSON codec
    return v;
}

template <class T> void gen(Gen &g, T &v, uint32_t ms, uint32_t mc, bool implicit)
{
    if constexpr (std::is_same_v<T, std::monostate>)
        ;
    else if constexpr (std::is_same_v<T, bool>)
        v = g.r.choose(2);
    else if constexpr (std::is_enum_v<T>)
        v = EnumVals<T>::values[g.r.choose(uint32_t(std::size(EnumVals<T>::values)))];
    else if constexpr (std::is_floating_point_v<T>)
        v = gen_float<T>(g);
    else if constexpr (std::is_integral_v<T>)
        v = gen_int<T>(g);
    else if constexpr (StringLike<T>)
    {
        if constexpr (requires { std::tuple_size<T>::value; })
        {
            std::string s = g.utf8_exact(v.size());
            memcpy(v.data(), s.data(), v.size());
        }
        else
        {
            uint32_t cap = ms ? ms + g.exceed : ~0u;
            if constexpr (requires { T::capacity_limit; }) cap = std::min<uint32_t>(cap, T::capacity_limit);
            std::string s = g.utf8(cap);
            v             = T();
            v.append(s.data(), s.size());
        }
    }
    else if constexpr (BytesLike<T>)
    {
        if constexpr (Resizable<T>)
        {
            uint32_t cap = ms ? ms + g.exceed : ~0u;
            if constexpr (requires { T::capacity_limit; }) cap = std::min<uint32_t>(cap, T::capacity_limit);
            std::string s = g.raw(cap);
            v.resize(s.size());
            memcpy(v.data(), s.data(), s.size());
        }
        else
        {
            std::string s = g.raw_exact(v.size());
            memcpy(v.data(), s.data(), v.size());
        }
    }
    else if constexpr (OptionalLike<T>)
    {
        v.reset();
        using U = typename T::value_type;
        if (HasFields<U> && g.depth <= 0) return;
        if (!g.present()) return;
        U x{};
        gen(g, x, ms, mc, false);
        if (implicit && g.no_default)
        {
            if constexpr (std::is_arithmetic_v<U> || std::is_enum_v<U>)
            {
                U z{};
                if (memcmp(&z, &x, sizeof z) == 0) return;
            }
            else if constexpr (StringLike<U> || BytesLike<U>)
            {
                if (x.size() == 0) return;
            }
        }
        v = std::move(x);
    }
    else if constexpr (is_uptr<T>::value)
    {
        v.reset();
        if (g.depth <= 0 || !g.present()) return;
        v = std::make_unique<typename T::element_type>();
        gen(g, *v, ms, mc, false);
    }
    else if constexpr (is_variant<T>::value)
    {
        v                  = T{};
        const uint32_t *om = g.oneof_ms;
        g.oneof_ms         = nullptr;
        if (!g.present()) return;
        uint32_t idx = g.r.choose(uint32_t(std::variant_size_v<T>));
        auto fill    = [&]<size_t... I>(std::index_sequence<I...>)
        {
            ((I == idx ? (gen(g, v.template emplace<I>(), om ? om[I] : ms, mc, false), 0) : 0), ...);
        };
        fill(std::make_index_sequence<std::variant_size_v<T>>());
    }
    else if constexpr (MapLike<T>)
    {
        v.clear();
        if (HasFields<typename T::mapped_type> && g.depth <= 0) return;
        if (!g.present()) return;
        uint32_t n = g.r.choose(5);
        for (uint32_t i = 0; i < n && g.budget > 0; i++)
        {
            typename T::key_type k{};
            gen(g, k, 0, 0, false);
            gen(g, v[k], 0, 0, false);
        }
    }
    else if constexpr (RepeatedLike<T>)
    {
        v.clear();
        using U = typename T::value_type;
        if (HasFields<U> && g.depth <= 0) return;
        if (!g.present()) return;
        uint32_t cap = mc ? mc + g.exceed : ~0u;
        if constexpr (requires { T::capacity_limit; }) cap = std::min<uint32_t>(cap, T::capacity_limit);
        uint32_t n = HasFields<U> ? g.r.choose(4) : g.count();
        if (mc && g.at_limit()) n = cap;
        n = std::min(n, cap);
        if constexpr (std::is_arithmetic_v<U> && !std::is_same_v<U, bool>)
        {
            if (n > 6) // long runs: contents from one seed
            {
                Prng p(g.r.choose(0xffffffff));
                for (uint32_t i = 0; i < n; i++)
                {
                    uint64_t x = p.next() >> p.below(64);
                    if constexpr (std::is_floating_point_v<U>)
                        v.emplace_back() = U(int64_t(x)) / U(7);
                    else
                        v.emplace_back() = U(p.below(2) ? x : ~x);
                }
                g.budget -= int(n);
                return;
            }
        }
        for (uint32_t i = 0; i < n && g.budget > 0; i++)
        {
            if constexpr (std::is_same_v<U, bool>)
                v.emplace_back(bool(g.r.choose(2)));
            else
                gen(g, v.emplace_back(), ms, 0, false);
            g.budget--;
        }
    }
    else if constexpr (FixedArray<T>)
    {
        for (size_t i = 0; i < v.size(); i++) gen(g, v[i], 0, 0, false);
    }
    else
    {
        static_assert(HasFields<T>);
        g.depth--;
        g.budget--;
        Fields<T>::visit(v, GenV{g});
        g.depth++;
    }
}

// ------------------------------------------------------------------ deep copy
template <class T> void copy_val(T &d, const T &s)
{
    if constexpr (std::is_copy_assignable_v<T> && !HasFields<T> && !MapLike<T> && !RepeatedLike<T> && !OptionalLike<T> && !is_variant<T>::value)
        d = s;
    else if constexpr (OptionalLike<T>)
    {
        d.reset();
        if (s.has_value())
        {
            d.emplace(typename T::value_type());
            copy_val(*d, *s);
        }
    }
    else if constexpr (is_uptr<T>::value)
    {
        d.reset();
        if (s)
        {
            d = std::make_unique<typename T::element_type>();
            copy_val(*d, *s);
        }
    }
    else if constexpr (is_variant<T>::value)
    {
        d         = T{};
        auto fill = [&]<size_t... I>(std::index_sequence<I...>)
        {
            ((I == s.index() ? (copy_val(d.template emplace<I>(), std::get<I>(s)), 0) : 0), ...);
        };
        fill(std::make_index_sequence<std::variant_size_v<T>>());
    }
    else if constexpr (MapLike<T>)
    {
        d.clear();
        for (auto &[k, x] : s) copy_val(d[k], x);
    }
    else if constexpr (RepeatedLike<T>)
    {
        d.clear();
        for (const auto &x : s)
        {
            if constexpr (std::is_same_v<typename T::value_type, bool>)
                d.emplace_back(bool(x));
            else
                copy_val(d.emplace_back(), x);
        }
    }
    else
    {
        std::vector<const void *> ptrs;
        CopyV v{ptrs, 0, true, {}, 0};
        Fields<T>::visit(s, v);
        v.collect = false;
        Fields<T>::visit(d, v);
    }
}
} // namespace sim
