// C01..C07: the proto compiler inside the simulated operating system.
#include "gen.hpp"
#include "heap.hpp"
#include <algorithm>
#include <cstring>
namespace sim
{
namespace
{
const std::vector<std::string> REAL = {"spb-protoc: main, option parsing, parser, AST resolution, dumpers (all of src/spb-proto-compiler)", "libstdc++ streams and std::filesystem, glibc stdio: the code between the compiler and the system calls"};
const std::vector<std::string> STUB = {"kernel file system, clock, random numbers and process ids: simulated operating system behind trapped system calls (Syscall User Dispatch)", "process scheduling: one system call at a time, order chosen by the simulator"};
const std::vector<std::string> ASSUME = {"the simulated file system behaves like a POSIX file system without symbolic links and hard links", "allocation failures are injected into operator new, not into malloc called by libc itself"};

struct Ref
{
    std::unique_ptr<SimFS> fs; // after the fault-free run
    InstanceResult res;
    Tree before, after;
};
std::string death_text(const InstanceResult &r)
{
    std::string s = r.death;
    if (r.signal) s += strf(" (signal %d)", r.signal);
    std::string e = r.err.substr(0, 600);
    if (auto at = r.err.find("ERROR: AddressSanitizer: "); at != std::string::npos) // without addresses, which vary
    {
        e = r.err.substr(at, r.err.find_first_of(" \n", at + 25) - at);
    }
    for (auto &c : e)
        if (c == '\n') c = '|';
    return s + " stderr: " + e;
}
// a bad access whose own frame is inside of libstdc++.so: not in the compiler's code and not in inlined templates
bool died_in_libstdcxx(const InstanceResult &r)
{
    if (r.death != "asan" || r.err.find("ERROR: AddressSanitizer: SEGV") == std::string::npos) return false;
    auto at  = r.err.find("#0 ");
    auto end = at == std::string::npos ? at : r.err.find('\n', at);
    return end != std::string::npos && r.err.substr(at, end - at).find("/libstdc++.so") != std::string::npos;
}
std::string why(const InstanceResult &r)
{
    if (!r.exited) return death_text(r);
    std::string e = r.err.substr(0, 300);
    return strf("exit status %d, stderr: %s", r.status, quote(e).c_str());
}
std::string diff_text(const Tree &want, const Tree &got)
{
    for (auto &w : want)
    {
        auto g = got.find(w.first);
        if (g == got.end()) return w.first + " is missing";
        if (g->second != w.second)
        {
            size_t i = 0;
            while (i < w.second.size() && i < g->second.size() && w.second[i] == g->second[i]) i++;
            return strf("%s differs at byte %zu (%zu bytes instead of %zu)", w.first.c_str(), i, g->second.size(), w.second.size());
        }
    }
    for (auto &g : got)
        if (!want.count(g.first)) return g.first + " was created";
    return "";
}
InstanceSpec spec_of(const Project &p, const std::vector<int> &which = {})
{
    InstanceSpec s;
    s.args = p.args(which);
    s.cwd  = p.cwd;
    return s;
}
// the outputs of the given inputs in a tree
Tree outputs(const Project &p, const Tree &t, const std::vector<int> &which = {})
{
    Tree o;
    for (size_t i = 0; i < p.inputs.size(); i++)
    {
        if (!which.empty() && std::find(which.begin(), which.end(), int(i)) == which.end()) continue;
        for (auto *f : {&p.inputs[i].h, &p.inputs[i].cc})
            if (auto k = t.find(*f); k != t.end()) o[*f] = k->second;
    }
    return o;
}
// fault-free run in a clean tree; the project is valid by construction
Ref reference(Run &r, const Project &p, const char *refused)
{
    Ref f;
    f.fs = std::make_unique<SimFS>();
    p.install(*f.fs);
    f.before = f.fs->tree();
    phase("reference run");
    f.res = run_one(*f.fs, spec_of(p));
    f.after = f.fs->tree();
    if (!f.res.exited || f.res.status != 0)
    {
        for (auto &x : p.files) r.ev("--- %s\n%s", x.path().c_str(), x.text.c_str());
        fail(refused, "%s: a valid project is not compiled in a fault-free run: %s", p.text().c_str(), why(f.res).c_str());
    }
    Tree want = f.before;
    for (auto &i : p.inputs)
        for (auto *o : {&i.h, &i.cc})
        {
            if (!f.after.count(*o)) fail("output-missing", "%s: exit status 0 but %s does not exist", p.text().c_str(), o->c_str());
            if (f.after[*o].empty()) fail("output-missing", "%s: exit status 0 but %s is empty", p.text().c_str(), o->c_str());
            want[*o] = f.after[*o];
        }
    if (auto d = diff_text(want, f.after); !d.empty()) fail("foreign-file-touched", "%s: fault-free run: %s", p.text().c_str(), d.c_str());
    r.ticks += f.res.trace.size();
    return f;
}
void show(Run &r, const Project &p)
{
    r.sample = p.text();
    if (r.verbose)
    {
        r.ev("%s", p.text().c_str());
        for (auto &x : p.files) r.ev("--- %s\n%s", x.path().c_str(), x.text.c_str());
    }
}
void must_end_well(const Project &p, const InstanceResult &x, const char *when)
{
    if (x.killed || x.exited) return;
    fail(x.death.empty() ? "crash" : x.death, "%s: %s: the compiler did not end with an exit status: %s", p.text().c_str(), when, death_text(x).c_str());
}
uint64_t trace_sig(const InstanceResult &x)
{
    uint64_t h = 7;
    for (auto &c : x.trace)
        if (c.fault) h = mix(h, uint64_t(c.cls) * 1000003 + c.index * 16 + unsigned(c.fault));
    return mix(h, x.trace.size());
}
const int E_OPEN_R[]  = {EACCES, EIO, EMFILE, ENFILE, ENOMEM, EPERM};
const int E_OPEN_W[]  = {EACCES, ENOSPC, EROFS, EIO, EMFILE, EDQUOT, EPERM};
const int E_READ[]    = {EIO, ESTALE};
const int E_WRITE[]   = {ENOSPC, EIO, EDQUOT, EFBIG};
const int E_CLOSE[]   = {EIO, ENOSPC, EDQUOT};
const int E_STAT[]    = {EACCES, EIO, ENOMEM};
const int E_MKDIR[]   = {EACCES, ENOSPC, EROFS, EIO, EDQUOT};
const int E_MISC[]    = {EIO};
template <size_t N> int pick_err(Run &r, const int (&e)[N]) { return e[r.choose(N)]; }
const char *err_name(int e)
{
    switch (e)
    {
    case EACCES: return "EACCES"; case ENOSPC: return "ENOSPC"; case EROFS: return "EROFS"; case EIO: return "EIO"; case EMFILE: return "EMFILE";
    case ENFILE: return "ENFILE"; case ENOMEM: return "ENOMEM"; case EPERM: return "EPERM"; case EDQUOT: return "EDQUOT"; case ESTALE: return "ESTALE";
    case EFBIG: return "EFBIG"; case EINTR: return "EINTR"; default: return "E?";
    }
}
bool faultable(const Call &c)
{
    switch (c.cls)
    {
    case SC_STDIO: case SC_OTHER: case SC_CLOSE_R: case SC_SEEK: case SC_UNLINK: return false;
    default: return true;
    }
}
Fault error_fault(Run &r, const Call &c)
{
    Fault f;
    f.kind = Fault::ERR;
    switch (c.cls)
    {
    case SC_OPEN_R: f.err = pick_err(r, E_OPEN_R); break;
    case SC_OPEN_W: f.err = pick_err(r, E_OPEN_W); break;
    case SC_READ: f.err = pick_err(r, E_READ); break;
    case SC_WRITE:
        f.err = pick_err(r, E_WRITE);
        if (c.len && r.coin(1, 2))
        {
            f.kind = Fault::ERR_DIRTY;
            f.n    = r.choose(uint32_t(c.len));
        }
        break;
    case SC_CLOSE_W:
        f.err = pick_err(r, E_CLOSE);
        if (r.coin(1, 2))
        {
            f.kind = Fault::LOSE;
            f.n    = r.choose(4) * 4096;
        }
        break;
    case SC_STAT: f.err = pick_err(r, E_STAT); break;
    case SC_MKDIR: f.err = pick_err(r, E_MKDIR); break;
    case SC_RENAME: f.err = pick_err(r, E_MKDIR); break;
    case SC_TRUNC: f.err = pick_err(r, E_WRITE); break;
    default: f.err = pick_err(r, E_MISC);
    }
    return f;
}
void count_fault(const Call &c, const Fault &f)
{
    switch (f.kind)
    {
    case Fault::ERR:
        switch (c.cls)
        {
        case SC_OPEN_R: count("open-for-read fails"); break;
        case SC_OPEN_W: count("open-for-write fails"); break;
        case SC_READ: count(f.err == EINTR ? "read interrupted" : "read fails"); break;
        case SC_WRITE: count(f.err == EINTR ? "write interrupted" : f.err == ENOSPC ? "write: disk full" : "write fails"); break;
        case SC_CLOSE_W: count("close of output fails"); break;
        case SC_STAT: count("stat fails"); break;
        case SC_MKDIR: count("mkdir fails"); break;
        case SC_RENAME: count("rename fails"); break;
        case SC_SYNC: count("sync fails"); break;
        default: count("other call fails");
        }
        break;
    case Fault::ERR_DIRTY: count("torn write then error"); break;
    case Fault::SHORT: count(c.cls == SC_READ ? "short read" : "short write"); break;
    case Fault::KILL: count("kill before call"); break;
    case Fault::KILL_TORN: count("kill inside write"); break;
    case Fault::KILL_AFTER: count("kill after call"); break;
    case Fault::LOSE: count("close fails and data is lost"); break;
    default: break;
    }
}
// any subset of the data not known durable may be lost when the machine stops
void power_loss(Run &r, SimFS &fs)
{
    std::function<void(const InodeP &)> rec = [&](const InodeP &d)
    {
        for (auto it = d->kids.begin(); it != d->kids.end();)
        {
            auto n = it->second;
            if (n->dir)
            {
                rec(n);
                ++it;
                continue;
            }
            if (!n->dirty)
            {
                ++it;
                continue;
            }
            switch (r.choose(5))
            {
            case 1: // only a prefix reached the disk
            {
                size_t k = r.choose(uint32_t(n->data.size()) + 1);
                fs.used -= n->data.size() - k;
                n->data.resize(k);
                count("power loss: file cut");
                break;
            }
            case 2: // size reached the disk, a part of the data did not
                if (!n->data.empty())
                {
                    size_t a = r.choose(uint32_t(n->data.size())), b = a + r.range(1, 4096);
                    for (size_t i = a; i < b && i < n->data.size(); i++) n->data[i] = 0;
                    count("power loss: zeroed block");
                }
                break;
            case 3: // the directory entry did not
                fs.used -= n->data.size();
                it = d->kids.erase(it);
                count("power loss: file gone");
                continue;
            default: break;
            }
            n->dirty = false;
            ++it;
        }
    };
    rec(fs.root);
}

// ---------------------------------------------------------------- C01
void c01(Run &r)
{
    GenOpts o;
    o.max_files = 4;
    auto p      = gen_project(r, o);
    show(r, p);
    auto ref = reference(r, p, "valid-project-refused");
    std::vector<size_t> elig;
    for (size_t i = 0; i < ref.res.trace.size(); i++)
        if (faultable(ref.res.trace[i])) elig.push_back(i);
    uint32_t n = r.range(1, 5);
    r.nontrivial = true;
    for (uint32_t e = 0; e < n; e++)
    {
        auto fs = std::make_unique<SimFS>();
        p.install(*fs);
        if (r.coin(1, 2)) gen_leftovers(r, p, *fs, &ref.after);
        uint32_t mode = r.choose(6); // 0..2 one failing call, 3 one call and all later ones of its kind, 4 full disk, 5 several independent failures
        std::set<uint64_t> at;
        uint64_t room = 0;
        std::string what;
        if (mode == 4)
        {
            uint64_t total = 0;
            for (auto &x : outputs(p, ref.after)) total += x.second.size();
            room         = r.choose(uint32_t(total) + 1);
            // leftovers free space when truncated
            fs->capacity = fs->used + room;
            what         = strf("disk with %llu free bytes", (unsigned long long)room);
        }
        else
        {
            uint32_t k = mode == 5 ? r.range(2, 4) : 1;
            // reads, writes and closes are picked as often as the more numerous stats
            for (uint32_t i = 0; i < k; i++)
            {
                uint32_t cls = r.choose(8);
                static const SysClass CL[] = {SC_WRITE, SC_READ, SC_CLOSE_W, SC_OPEN_W, SC_OPEN_R, SC_STAT, SC_MKDIR, SC_N};
                std::vector<size_t> v;
                for (size_t x : elig)
                    if (CL[cls] == SC_N || ref.res.trace[x].cls == CL[cls]) v.push_back(x);
                if (v.empty()) v = elig;
                at.insert(ref.res.trace[v[r.choose(uint32_t(v.size()))]].index);
            }
        }
        int fired = 0;
        SysClass stuck = SC_N;
        Fault stuck_f;
        auto x = run_one(*fs, spec_of(p), [&](const Call &c) -> Fault
        {
            if (c.cls == stuck) return ++fired, stuck_f;
            if (!at.count(c.index) || !faultable(c)) return {};
            Fault f = error_fault(r, c);
            fired++;
            count_fault(c, f);
            what += strf("%s %s -> %s%s; ", sc_name(c.cls), c.path.c_str(), err_name(f.err), f.kind == Fault::LOSE ? " with data loss" : f.kind == Fault::ERR_DIRTY ? " after a partial write" : "");
            if (mode == 3)
            {
                stuck        = c.cls;
                stuck_f      = f;
                stuck_f.kind = Fault::ERR;
                what += "(persistent) ";
                count("persistent failure");
            }
            return f;
        });
        if (mode == 4)
            for (auto &c : x.trace) fired += c.ret == -ENOSPC;
        if (mode == 4 && fired) count("disk full");
        r.ev("experiment %u: %s -> %s", e, what.c_str(), why(x).c_str());
        r.ticks += x.trace.size();
        r.sig(trace_sig(x));
        must_end_well(p, x, what.c_str());
        Tree after = fs->tree();
        if (x.status == 0)
        {
            if (fired) count("probe: success despite a failing call");
            auto d = diff_text(outputs(p, ref.after), outputs(p, after));
            if (!d.empty()) fail("success-with-bad-output", "%s: exit status 0 after %s but %s", p.text().c_str(), what.c_str(), d.c_str());
        }
        else
        {
            if (!fired) fail("failure-without-fault", "%s: no call failed but %s", p.text().c_str(), why(x).c_str());
            if (x.err.empty()) fail("silent-failure", "%s: %s: exit status %d without a message on the error output", p.text().c_str(), what.c_str(), x.status);
        }
    }
}
// ---------------------------------------------------------------- C02
void c02(Run &r)
{
    GenOpts o;
    o.max_files = 4;
    auto p      = gen_project(r, o);
    show(r, p);
    auto ref = reference(r, p, "valid-project-refused");
    auto fs  = std::make_unique<SimFS>();
    p.install(*fs);
    gen_leftovers(r, p, *fs, &ref.after);
    uint32_t crashes = r.choose(4);
    uint64_t len     = ref.res.trace.size();
    std::string hist;
    for (uint32_t k = 0; k < crashes; k++)
    {
        uint64_t at   = r.choose(uint32_t(len + 2));
        if (r.coin(1, 2)) // crashes while outputs are written are the interesting ones
        {
            std::vector<uint64_t> w;
            for (auto &c : ref.res.trace)
                if (c.cls == SC_WRITE || c.cls == SC_OPEN_W || c.cls == SC_CLOSE_W || c.cls == SC_MKDIR || c.cls == SC_RENAME) w.push_back(c.index);
            if (!w.empty()) at = w[r.choose(uint32_t(w.size()))];
        }
        uint32_t how  = r.choose(3);
        uint32_t torn = r.choose(8192);
        auto s        = spec_of(p);
        s.noise       = r.choose(1000);
        bool fired    = false;
        auto x        = run_one(*fs, s, [&](const Call &c) -> Fault
        {
            if (c.index != at) return {};
            Fault f;
            f.kind = how == 0 ? Fault::KILL : how == 1 ? Fault::KILL_AFTER : Fault::KILL_TORN;
            f.n    = torn;
            fired  = true;
            count_fault(c, f);
            hist += strf("killed at %s %s; ", sc_name(c.cls), c.path.c_str());
            return f;
        });
        r.ticks += x.trace.size();
        r.sig(trace_sig(x));
        must_end_well(p, x, hist.c_str());
        if (r.coin(1, 2))
        {
            power_loss(r, *fs);
            hist += "power loss; ";
        }
        fs->clock += r.choose(2) ? 100000 : 0;
        // what the user relies on: inputs survive
        for (auto &f : p.files)
        {
            auto t = fs->tree();
            if (t[f.path()] != f.text) fail("input-damaged", "%s: %s: %s changed", p.text().c_str(), hist.c_str(), f.path().c_str());
        }
        if (fired) r.nontrivial = true;
    }
    if (!crashes) r.nontrivial = true;
    uint32_t reruns = r.range(1, 2);
    for (uint32_t k = 0; k < reruns; k++)
    {
        auto s  = spec_of(p);
        s.noise = r.choose(100000);
        if (r.coin(1, 8)) fs->clock = 4000000000u;
        if (k) count("repeated run");
        auto x = run_one(*fs, s);
        r.ticks += x.trace.size();
        must_end_well(p, x, "fault-free run after crashes");
        if (x.status != 0) fail("rerun-fails", "%s: history: %s the following fault-free run ends with %s", p.text().c_str(), hist.c_str(), why(x).c_str());
        auto d = diff_text(outputs(p, ref.after), outputs(p, fs->tree()));
        if (!d.empty()) fail("rerun-differs", "%s: history: %s after the following fault-free run %s", p.text().c_str(), hist.c_str(), d.c_str());
    }
}
// ---------------------------------------------------------------- C03
void c03(Run &r)
{
    GenOpts o;
    o.min_files = 2;
    o.max_files = 5;
    o.min_inputs = 2;
    o.small     = true;
    auto p      = gen_project(r, o);
    show(r, p);
    auto ref = reference(r, p, "valid-project-refused");
    auto fs  = std::make_unique<SimFS>();
    p.install(*fs);
    gen_leftovers(r, p, *fs, &ref.after);
    // distribute the inputs over the processes
    uint32_t n = r.range(2, 4);
    std::vector<std::vector<int>> share(n);
    for (size_t i = 0; i < p.inputs.size(); i++) share[i < 2 ? i : r.choose(n)].push_back(int(i));
    std::vector<InstanceSpec> specs;
    std::vector<std::vector<int>> ids;
    for (uint32_t i = 0; i < n; i++)
    {
        if (share[i].empty()) continue;
        auto s  = spec_of(p, share[i]);
        s.noise = r.choose(10000);
        specs.push_back(s);
        ids.push_back(share[i]);
    }
    r.nontrivial = specs.size() > 1;
    int victim   = r.coin(1, 6) ? int(r.choose(uint32_t(specs.size()))) : -1;
    uint64_t vat = victim >= 0 ? r.choose(uint32_t(ref.res.trace.size())) : 0;
    uint32_t style = r.choose(3); // 0 long slices, 1 fully mixed, 2 one process is slow
    int slow       = int(r.choose(uint32_t(specs.size())));
    size_t last = 0;
    uint32_t left = 0;
    uint64_t sched = 1;
    auto pick = [&](const std::vector<int> &ready) -> size_t
    {
        size_t k = 0;
        if (style == 0)
        {
            for (size_t i = 0; i < ready.size(); i++)
                if (size_t(ready[i]) == last && left) k = i + 1;
            if (k)
            {
                left--;
                return k - 1;
            }
            k    = r.choose(uint32_t(ready.size()));
            left = r.choose(12);
        }
        else
        {
            k = r.choose(uint32_t(ready.size()));
            if (style == 2 && ready[k] == slow && !r.coin(1, 16)) // 16 times slower than the others
            {
                count("stalled process step");
                k = (k + 1) % ready.size();
            }
        }
        if (size_t(ready[k]) != last) count("process switch");
        last  = size_t(ready[k]);
        sched = mix(sched, last);
        return k;
    };
    bool dead = false;
    auto res  = run_instances(*fs, specs, [&](const Call &c) -> Fault
    {
        if (c.proc != victim || c.index != vat) return {};
        Fault f;
        f.kind = Fault::KILL;
        dead   = true;
        count_fault(c, f);
        return f;
    }, pick);
    r.sig(sched);
    Tree want, after = fs->tree();
    for (size_t i = 0; i < res.size(); i++)
    {
        r.ticks += res[i].trace.size();
        must_end_well(p, res[i], "concurrent runs");
        if (res[i].killed) continue;
        if (res[i].status != 0) fail("concurrent-run-fails", "%s: process %zu of %zu, running concurrently%s, ends with %s", p.text().c_str(), i, res.size(), dead ? " (another one was killed)" : "", why(res[i]).c_str());
        for (auto &x : outputs(p, ref.after, ids[i])) want.insert(x);
        auto d = diff_text(outputs(p, ref.after, ids[i]), outputs(p, after, ids[i]));
        if (!d.empty()) fail("concurrent-output-differs", "%s: after %zu concurrent processes %s", p.text().c_str(), res.size(), d.c_str());
    }
    if (!dead)
    {
        Tree all = ref.before;
        for (auto &x : want) all[x.first] = x.second;
        if (auto d = diff_text(all, after); !d.empty()) fail("concurrent-tree-differs", "%s: after %zu concurrent processes %s", p.text().c_str(), res.size(), d.c_str());
    }
}
// ---------------------------------------------------------------- C04
void c04(Run &r)
{
    GenOpts o;
    o.max_files = 5;
    auto p      = gen_project(r, o);
    show(r, p);
    r.nontrivial = true;
    auto fs  = std::make_unique<SimFS>();
    p.install(*fs);
    Tree good;
    if (r.coin(1, 2)) // a previous, successful build
    {
        auto x = run_one(*fs, spec_of(p));
        if (x.exited && x.status == 0) good = fs->tree();
    }
    gen_leftovers(r, p, *fs, &good);
    // which files does each input need
    std::vector<std::set<int>> need(p.inputs.size());
    for (size_t i = 0; i < p.inputs.size(); i++)
    {
        std::function<void(int)> rec = [&](int f)
        {
            if (!need[i].insert(f).second) return;
            for (int k : p.files[size_t(f)].imports) rec(k);
        };
        rec(p.inputs[i].file);
    }
    // one file becomes bad
    int bad = p.inputs[r.choose(uint32_t(p.inputs.size()))].file;
    {
        std::vector<int> cand;
        for (auto &s : need)
            for (int f : s) cand.push_back(f);
        if (r.coin(1, 2)) bad = cand[r.choose(uint32_t(cand.size()))];
    }
    ProtoFile &bf = p.files[size_t(bad)];
    std::string what;
    std::string culprit = bf.name; // named by the message
    bool certain = true;           // an input that depends on `bad` can not be compiled
    bool as_input_only = false;    // bad only when given on the command line (generation error)
    enum { NOFAULT, ERR_OPEN, ERR_READ, ERR_STAT, KILLED } sysf = NOFAULT;
    int err = 0;
    uint64_t kill_at = 0;
    switch (r.choose(12))
    {
    case 0: what = "syntax error at the end"; bf.text += "\nmessage Broken {\n"; fs->mkfile(bf.path(), bf.text); break;
    case 1: what = "unresolvable type"; bf.text += "\nmessage Broken { optional NoSuchType x = 1; }\n"; fs->mkfile(bf.path(), bf.text); break;
    case 2: what = "missing import"; bf.text += "\nimport \"no/such/file.proto\";\n"; fs->mkfile(bf.path(), bf.text); break;
    case 3: what = "file is missing"; fs->remove(bf.path()); for (auto it = p.other.begin(); it != p.other.end(); ++it) if (it->first.size() > bf.rel.size() && it->first.rfind(bf.rel) == it->first.size() - bf.rel.size()) fs->remove(it->first); break;
    case 4:
        what = "file is a directory";
        fs->remove(bf.path());
        fs->mkdirs(bf.path());
        break;
    case 5:
    {
        what = "file is not readable";
        int e;
        fs->walk("/", bf.path(), e)->mode = 0200;
        break;
    }
    case 6: what = "open fails"; sysf = ERR_OPEN; err = pick_err(r, E_OPEN_R); break;
    case 7: what = "read fails"; sysf = ERR_READ; err = pick_err(r, E_READ); break;
    case 8:
        what = "not representable in C++ (bit field without required label)";
        bf.text += "\nmessage Broken {\n//[[ (spb_opt).type = \"uint32:2\" ]]\nrepeated uint32 x = 1;\n}\n";
        fs->mkfile(bf.path(), bf.text);
        as_input_only = true;
        break;
    case 9:
        what = "file damaged: ";
        bf.text = damage(r, bf.text, what);
        fs->mkfile(bf.path(), bf.text);
        certain = false;
        break;
    case 11: // it is there, but can not be looked at: not the same as a file that does not exist
        what = "stat fails";
        sysf = ERR_STAT;
        err  = pick_err(r, E_STAT);
        break;
    default:
        what    = "process killed";
        sysf    = KILLED;
        kill_at = r.choose(uint32_t(60 * p.inputs.size()));
        certain = false;
    }
    count(sysf == KILLED ? "kill" : sysf == ERR_READ ? "read of an input fails" : sysf == ERR_OPEN ? "open of an input fails" : sysf == ERR_STAT ? "stat of an input fails" : "damaged or missing input file");
    if (bf.text.size() == 0 && sysf == ERR_READ) certain = false;
    Tree before = fs->tree(), before_dirs = fs->tree(true);
    bool fired  = false;
    auto x      = run_one(*fs, spec_of(p), [&](const Call &c) -> Fault
    {
        Fault f;
        if (sysf == KILLED && c.index == kill_at)
            f.kind = Fault::KILL;
        else if (sysf == ERR_OPEN && c.cls == SC_OPEN_R && c.path == bf.path())
            f.kind = Fault::ERR, f.err = err;
        else if (sysf == ERR_READ && c.cls == SC_READ && c.path == bf.path())
            f.kind = Fault::ERR, f.err = err;
        else if (sysf == ERR_STAT && c.cls == SC_STAT && c.path == bf.path())
            f.kind = Fault::ERR, f.err = err;
        if (f.kind) fired = true;
        return f;
    });
    if (sysf != NOFAULT && !fired) certain = false;
    Tree after = fs->tree();
    r.ev("%s: %s -> %s", bf.path().c_str(), what.c_str(), why(x).c_str());
    r.ticks += x.trace.size();
    r.sig(mix(hash_bytes(what.data(), what.size()), trace_sig(x)));
    r.sample += " [" + bf.name + ": " + what + "]";
    must_end_well(p, x, what.c_str());
    // 1. nothing but the outputs of the inputs changed
    std::set<std::string> own;
    for (auto &i : p.inputs) own.insert({i.h, i.cc});
    for (auto &b : before)
    {
        if (own.count(b.first)) continue;
        auto a = after.find(b.first);
        if (a == after.end()) fail("foreign-file-removed", "%s: %s (%s): %s was removed", p.text().c_str(), bf.name.c_str(), what.c_str(), b.first.c_str());
        if (a->second != b.second) fail("foreign-file-changed", "%s: %s (%s): %s was changed", p.text().c_str(), bf.name.c_str(), what.c_str(), b.first.c_str());
    }
    for (auto &a : after)
        if (!own.count(a.first) && !before.count(a.first) && !x.killed)
            fail("foreign-file-created", "%s: %s (%s): %s was created", p.text().c_str(), bf.name.c_str(), what.c_str(), a.first.c_str());
    for (auto &d : fs->tree(true))
    {
        if (d.second != "<dir>" || before_dirs.count(d.first)) continue;
        bool parent = false;
        for (auto &f : own) parent |= f.rfind(d.first, 0) == 0;
        if (!parent) fail("foreign-directory-created", "%s: %s (%s): directory %s was created", p.text().c_str(), bf.name.c_str(), what.c_str(), d.first.c_str());
    }
    if (x.killed) return;
    // 2. a bad file makes the run fail, with a message, and its outputs stay
    std::vector<size_t> affected;
    for (size_t i = 0; i < p.inputs.size(); i++)
        if (as_input_only ? p.inputs[i].file == bad : need[i].count(bad) != 0) affected.push_back(i);
    if (x.status == 0)
    {
        if (certain && !affected.empty()) fail("bad-input-accepted", "%s: exit status 0 although %s: %s", p.text().c_str(), bf.path().c_str(), what.c_str());
        return;
    }
    if (affected.empty()) fail("good-input-refused", "%s: no input needs %s (%s), but %s", p.text().c_str(), bf.path().c_str(), what.c_str(), why(x).c_str());
    // random damage may move the error elsewhere (the type a file uses is gone), so any file of the project will do then
    bool named = x.err.find(culprit) != std::string::npos;
    if (!certain)
        for (auto &f : p.files) named |= x.err.find(f.name) != std::string::npos;
    if (!named)
        fail("culprit-not-named", "%s: %s is bad (%s) but the error output does not name it: %s", p.text().c_str(), bf.path().c_str(), what.c_str(), why(x).c_str());
    for (size_t i : affected)
        for (auto *f : {&p.inputs[i].h, &p.inputs[i].cc})
        {
            bool had = before.count(*f), has = after.count(*f);
            if (had != has || (had && before[*f] != after[*f]))
                fail("output-of-bad-input-touched", "%s: %s is bad (%s) but the output %s of an input that needs it was %s", p.text().c_str(), bf.path().c_str(), what.c_str(), f->c_str(), !had ? "created" : !has ? "removed" : "changed");
        }
}
// ---------------------------------------------------------------- C05
void c05(Run &r)
{
    GenOpts o;
    o.max_files = 4;
    auto p      = gen_project(r, o);
    show(r, p);
    auto ref = reference(r, p, "valid-project-refused");
    auto fs  = std::make_unique<SimFS>();
    p.install(*fs);
    if (r.coin(1, 2)) gen_leftovers(r, p, *fs, &ref.after);
    uint32_t den = r.range(1, 6); // how often
    bool intr = r.coin(2, 3), rd = r.coin(3, 4), wr = r.coin(3, 4) || !rd;
    uint32_t maxn = 1 + r.choose(3) * r.choose(3000);
    int in_a_row = 0;
    uint64_t fired = 0;
    auto x = run_one(*fs, spec_of(p), [&](const Call &c) -> Fault
    {
        Fault f;
        f.delay = r.coin(1, 16) ? r.range(1, 100000) : 0;
        if (f.delay) count("slow call");
        if (!(c.cls == SC_READ && rd) && !(c.cls == SC_WRITE && wr)) return f;
        if (r.choose(den + 1) == 0)
        {
            in_a_row = 0;
            return f;
        }
        if (intr && in_a_row < 5 && r.coin(1, 2))
        {
            in_a_row++;
            f.kind = Fault::ERR;
            f.err  = EINTR;
        }
        else if (c.len > 1)
        {
            in_a_row = 0;
            f.kind   = Fault::SHORT;
            f.n      = r.range(1, maxn);
        }
        if (f.kind) fired++, count_fault(c, f);
        return f;
    });
    r.ticks += x.trace.size();
    r.sig(trace_sig(x));
    r.nontrivial = fired > 0;
    r.ev("%llu partial or interrupted calls -> %s", (unsigned long long)fired, why(x).c_str());
    must_end_well(p, x, "partial and interrupted calls");
    if (x.status != 0) fail("interruption-fails-run", "%s: %llu partial or interrupted calls: %s", p.text().c_str(), (unsigned long long)fired, why(x).c_str());
    auto d = diff_text(outputs(p, ref.after), outputs(p, fs->tree()));
    if (!d.empty()) fail("interruption-changes-output", "%s: %llu partial or interrupted calls: exit status 0 but %s", p.text().c_str(), (unsigned long long)fired, d.c_str());
}
// ---------------------------------------------------------------- C06
void c06(Run &r)
{
    GenOpts o;
    o.max_files = 4;
    auto p      = gen_project(r, o);
    show(r, p);
    r.nontrivial = true;
    std::string what;
    if (r.coin(3, 4))
    {
        uint32_t k = r.range(1, 2);
        for (uint32_t i = 0; i < k; i++)
        {
            auto &f = p.files[r.choose(uint32_t(p.files.size()))];
            what += f.name + ": ";
            switch (r.choose(8))
            {
            case 0: // import cycles
            {
                auto &g = p.files[r.choose(uint32_t(p.files.size()))];
                static const char *V[] = {"%s", "./%s", "%s/../%s", ".//%s"};
                uint32_t v = r.choose(4);
                std::string q = v == 2 ? "." + std::string("/./") + g.rel : strf(V[v], g.rel.c_str());
                if (r.coin(1, 2)) q = (v == 1 ? "./" : "") + g.name;
                f.text = "import \"" + q + "\";\n" + f.text;
                if (r.coin(1, 2)) f.text += "\nimport \"./" + f.name + "\";\n";
                what += "imports " + q + "; ";
                count("import cycle");
                break;
            }
            case 1: // very deep trees
            case 2:
                f.text = damage(r, damage(r, f.text, what), what);
                count("damaged file");
                break;
            default:
                f.text = damage(r, f.text, what);
                count("damaged file");
            }
        }
    }
    SimFS fs0;
    p.install(fs0);
    // undisturbed run on these inputs
    auto fa = fs0.clone();
    phase("damaged inputs");
    auto a = run_one(*fa, spec_of(p), {}, 60000000);
    r.ticks += a.trace.size();
    r.sig(mix(a.steps, a.trace.size()));
    r.ev("%s -> %s", what.c_str(), why(a).c_str());
    must_end_well(p, a, what.c_str());
    if (a.status == 0 && !what.empty()) count("probe: damaged input accepted");
    // the same with failing allocations
    uint32_t n = r.range(1, 4);
    for (uint32_t e = 0; e < n && a.allocs; e++)
    {
        auto s       = spec_of(p);
        s.alloc_mode = 1 + int(r.choose(3));
        s.alloc_fail = 1 + r.choose(uint32_t(a.allocs));
        if (s.alloc_mode == heap::FAIL_EVERY) s.alloc_fail = 1 + r.choose(uint32_t(a.allocs < 2000 ? a.allocs : 2000));
        s.noise = r.choose(100);
        auto fb = fs0.clone();
        phase("failing allocation");
        auto b = run_one(*fb, s, {}, 120000000);
        r.ticks += b.trace.size();
        if (b.alloc_failed) count("failing allocation", b.alloc_failed < 1000 ? b.alloc_failed : 1000);
        if (b.alloc_failed && died_in_libstdcxx(b)) // std::filesystem::path::operator/= of libstdc++ 13 is not safe against bad_alloc
        {
            count("probe: the standard library itself dies of a failing allocation");
            continue;
        }
        std::string w = what + strf("allocation %llu of %llu fails (mode %d)", (unsigned long long)s.alloc_fail, (unsigned long long)a.allocs, s.alloc_mode);
        r.ev("%s -> %s", w.c_str(), why(b).c_str());
        must_end_well(p, b, w.c_str());
        r.sig(mix(b.trace.size(), b.alloc_failed));
        if (b.status == 0)
        {
            if (b.alloc_failed) count("probe: success despite a failing allocation");
            if (a.status != 0) fail("memory-pressure-hides-error", "%s: exit status 0 with %s, but without %s", p.text().c_str(), w.c_str(), why(a).c_str());
            auto d = diff_text(outputs(p, fa->tree()), outputs(p, fb->tree()));
            if (!d.empty()) fail("success-with-bad-output", "%s: exit status 0 with %s, but %s", p.text().c_str(), w.c_str(), d.c_str());
        }
    }
}
// ---------------------------------------------------------------- C07
void c07(Run &r)
{
    GenOpts o;
    o.min_files  = 2;
    o.max_files  = 7;
    o.min_inputs = 2;
    o.small      = true;
    auto p       = gen_project(r, o);
    show(r, p);
    r.nontrivial = true;
    auto ref     = reference(r, p, "valid-project-refused");
    auto fs      = std::make_unique<SimFS>();
    p.install(*fs);
    // a history of runs, each over some of the inputs in some order, until all are built
    std::vector<int> todo;
    for (size_t i = 0; i < p.inputs.size(); i++) todo.push_back(int(i));
    for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[(i - 1) - r.choose(uint32_t(i))]);
    std::string hist;
    uint32_t runs = 0;
    while (!todo.empty())
    {
        uint32_t k = r.range(1, uint32_t(todo.size()));
        std::vector<int> now(todo.begin(), todo.begin() + k);
        todo.erase(todo.begin(), todo.begin() + k);
        auto s  = spec_of(p, now);
        s.noise = r.choose(10000);
        if (r.coin(1, 4)) s.args.push_back(s.args.back()); // named twice
        auto x = run_one(*fs, s);
        r.ticks += x.trace.size();
        hist += "[";
        for (int i : now) hist += p.files[size_t(p.inputs[size_t(i)].file)].name + " ";
        hist += "] ";
        runs++;
        must_end_well(p, x, hist.c_str());
        if (x.status != 0) fail("order-fails", "%s: in the order %s: %s", p.text().c_str(), hist.c_str(), why(x).c_str());
    }
    count("compiler run", runs);
    r.sig(hash_bytes(hist.data(), hist.size()));
    auto d = diff_text(ref.after, fs->tree());
    if (!d.empty()) fail("order-changes-output", "%s: compiled in the order %s: %s", p.text().c_str(), hist.c_str(), d.c_str());
    // the import statements of every file in another order
    Project q    = p;
    bool changed = false;
    for (auto &f : q.files)
    {
        std::vector<std::string> lines, imp;
        size_t i = 0;
        while (i < f.text.size())
        {
            size_t j = f.text.find('\n', i);
            j        = j == std::string::npos ? f.text.size() : j + 1;
            lines.push_back(f.text.substr(i, j - i));
            i = j;
        }
        std::vector<size_t> at;
        for (size_t k = 0; k < lines.size(); k++)
            if (lines[k].rfind("import ", 0) == 0) at.push_back(k);
        if (at.size() < 2) continue;
        for (size_t k = at.size(); k > 1; k--)
        {
            size_t m = (k - 1) - r.choose(uint32_t(k));
            if (m != k - 1) changed = true;
            std::swap(lines[at[k - 1]], lines[at[m]]);
        }
        f.text.clear();
        for (auto &l : lines) f.text += l;
    }
    if (!changed) return;
    count("imports reordered");
    SimFS g;
    q.install(g);
    auto x = run_one(g, spec_of(q));
    r.ticks += x.trace.size();
    must_end_well(q, x, "imports in another order");
    if (x.status != 0)
    {
        for (auto &f : q.files) r.ev("--- reordered %s\n%s", f.path().c_str(), f.text.c_str());
        fail("import-order-fails", "%s: with the import statements in another order: %s", p.text().c_str(), why(x).c_str());
    }
    auto d2 = diff_text(outputs(p, ref.after), outputs(p, g.tree()));
    if (!d2.empty()) fail("import-order-changes-output", "%s: with the import statements in another order: %s", p.text().c_str(), d2.c_str());
}

Reg r1({"C01", c01, 15000, 400000, 90, 1800, "exit status 0 implies complete outputs; a failure is reported by a non-zero status and a message", REAL, STUB, ASSUME, "hash of failing calls, their position and the length of the run", "system calls served", 40});
Reg r2({"C02", c02, 15000, 400000, 90, 1800, "after any number of kills and power losses the next fault-free run leaves the outputs of a clean build", REAL, STUB, ASSUME, "hash of crash points and the length of the run", "system calls served", 40});
Reg r3({"C03", c03, 15000, 400000, 90, 1800, "concurrent processes succeed and leave the tree that sequential runs leave", REAL, STUB, ASSUME, "hash of the interleaving of system calls", "system calls served", 40});
Reg r4({"C04", c04, 15000, 400000, 90, 1800, "only outputs change; a bad input gives a non-zero status, a message naming it, and untouched outputs", REAL, STUB, ASSUME, "hash of the kind of damage and the run's faults", "system calls served", 40});
Reg r5({"C05", c05, 15000, 400000, 90, 1800, "partial and interrupted transfers do not change status and outputs", REAL, STUB, ASSUME, "hash of the faulted calls", "system calls served", 40});
Reg r6({"C06", c06, 15000, 400000, 90, 1800, "every run ends with an exit status within the step budget and without memory errors; 0 only with the outputs of an undisturbed run", REAL, STUB, ASSUME, "hash of executed basic blocks, length of the run and failed allocations", "system calls served", 40});
Reg r7({"C07", c07, 15000, 400000, 90, 1800, "status 0 and the same bytes for every order and grouping of inputs and imports", REAL, STUB, ASSUME, "hash of the history of runs", "system calls served", 40});
} // namespace
} // namespace sim
#undef main
int main(int argc, char **argv) { return sim::engine_main(argc, argv); }
