// Simulated operating system: runs instances of the real spb-protoc main() in child processes whose system calls
// are trapped (Syscall User Dispatch) and served one by one by the simulator from an in-memory file system.
#pragma once
#include "simfs.hpp"
#include <functional>
namespace sim
{
enum SysClass
{
    SC_OPEN_R,
    SC_OPEN_W,
    SC_READ,
    SC_WRITE,
    SC_CLOSE_R,
    SC_CLOSE_W,
    SC_STAT,
    SC_MKDIR,
    SC_SEEK,
    SC_SYNC,
    SC_RENAME,
    SC_UNLINK,
    SC_TRUNC,
    SC_STDIO, // read or write of descriptors 0..2
    SC_DIR,
    SC_OTHER,
    SC_N
};
const char *sc_name(SysClass c);
// decides what happens to a call: returns true if the fault handler replaced the ordinary behaviour
struct Fault
{
    enum Kind
    {
        NONE,
        ERR,        // the call fails with err, without effect
        ERR_DIRTY,  // write: part of the data is written, then the call fails (torn)
        SHORT,      // read/write transfers only `n` bytes
        KILL,       // the process is killed instead of executing the call
        KILL_TORN,  // write: `n` bytes are written, then the process is killed
        KILL_AFTER, // the call takes effect, then the process is killed
        LOSE        // close: fails with err and the data not yet durable is lost
    } kind = NONE;
    int err  = 0;
    size_t n = 0;
    uint64_t delay = 0; // simulated seconds the call takes
};
struct Call // one trapped system call, as the simulator sees it
{
    int proc       = 0;
    uint64_t index = 0; // per process
    int nr         = 0;
    SysClass cls   = SC_OTHER;
    std::string path;     // resolved absolute path (of the descriptor, or argument)
    std::string path2;
    size_t len = 0;       // bytes asked for
    long ret   = 0;
    Fault::Kind fault = Fault::NONE;
};
struct InstanceSpec
{
    std::vector<std::string> args; // argv[1..]
    std::string cwd = "/";
    uint64_t noise  = 0;           // heap layout perturbation, pid, fill pattern
    uint64_t alloc_fail = 0;       // 1-based index of the failing allocation, 0 = none
    int alloc_mode  = 0;           // sim::heap::Mode
};
struct InstanceResult
{
    bool exited   = false; // ended with an exit status
    int status    = -1;
    int signal    = 0;     // ended by a signal
    bool killed   = false; // killed by the simulator
    std::string death;     // class of abnormal end: "", "crash", "asan", "step-limit", "hang"
    std::string out, err;
    uint64_t steps = 0, allocs = 0, alloc_failed = 0;
    std::vector<Call> trace;
};
using FaultFn = std::function<Fault(const Call &)>;
using PickFn  = std::function<size_t(const std::vector<int> &)>; // index into the runnable instances
// runs all instances to their end, interleaved at system-call granularity
std::vector<InstanceResult> run_instances(SimFS &fs, const std::vector<InstanceSpec> &specs, const FaultFn &fault,
                                          const PickFn &pick, uint64_t step_limit = 400000000ull);
InstanceResult run_one(SimFS &fs, const InstanceSpec &spec, const FaultFn &fault = {}, uint64_t step_limit = 400000000ull);
std::string call_text(const Call &c);
} // namespace sim
