#pragma once
#include "ops.hpp"
#include <cstring>
namespace sim
{
// runs a library world and checks that nothing allocated by library calls is left at the end
template <class F> void lib_world(Run &r, F f, bool huge = false)
{
    heap::install();
    heap::reset();
    g_allow_huge = huge;
    f(r);
    g_allow_huge = false;
    if (heap::live()) fail("leak", "%zu allocations made inside library calls were never released", heap::live());
}
#define LIB_REAL                                                                                                       \
    {                                                                                                                  \
        "spb headers (include/spb)", "spb-protoc (real binary, generates the schema code)", "generated C++ code",      \
            "libstdc++"                                                                                                \
    }
#define LIB_STUB                                                                                                       \
    {                                                                                                                  \
        "byte streams (user reader/writer callbacks)", "operator new/delete", "wall clock (step counter)"              \
    }
#define LIB_ASSUME                                                                                                     \
    {                                                                                                                  \
        "the schema corpus in lib/proto stands for all schemas", "clang 18 -O1 with AddressSanitizer; x86-64 little endian", \
            "a single allocation above 8 MiB is refused by the simulated allocator"                                    \
    }
inline std::string delimit(const std::string &body)
{
    std::string s;
    put_varint(s, body.size());
    return s + body;
}
inline Fmt draw_pb(Run &r) { return r.choose(2) ? PBD : PB; }
// expected value of a decode of `data` from one contiguous buffer into a copy of `base`
inline std::string clip(const std::string &s, size_t n = 700) { return s.size() > n ? s.substr(0, n) + "..." : s; }
} // namespace sim
