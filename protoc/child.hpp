// shared between the simulator and its child processes
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim
{
struct Chan
{
    enum : uint32_t
    {
        CALL,
        EXIT
    };
    uint32_t type;
    int nr;
    long a[6];
    char path1[8192], path2[8192];
    uint32_t dlen;     // bytes of data in either direction
    long ret;
    int exit_status;
    uint64_t steps, allocs, alloc_failed;
    uint32_t step_limit_hit;
    static constexpr size_t CAP = 4u << 20;
    char data[CAP];
};
struct ChildCfg
{
    int argc;
    char **argv;
    uint64_t noise, alloc_fail, step_limit;
    int alloc_mode;
    int sock;
    Chan *ch;
};
[[noreturn]] void child_main(const ChildCfg &cfg);
} // namespace sim
