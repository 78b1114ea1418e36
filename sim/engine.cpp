#include "engine.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:handle_abort=0:max_malloc_fill_size=65536:malloc_fill_byte=165";
}
namespace sim
{
Run *R = nullptr;
uint64_t g_steps = 0, g_step_limit = ~0ull;

static const size_t MAXCH = 1 << 16, MAXSIG = 1 << 19, MAXCNT = 192, MAXBATCH = 256;
struct Counter
{
    const char *name;
    uint64_t n;
};
enum Status : int
{
    ST_NONE = 0,
    ST_OK,
    ST_DISCARD,
    ST_VIOLATION
};
struct Slot
{
    std::atomic<uint64_t> run_idx, batch_start;
    std::atomic<uint64_t> started_ms;
    std::atomic<int> in_run;
    int status;
    char phase[64];
    char cls[160];
    char msg[2048];
    uint64_t hash;
    uint32_t nch;
    uint32_t ch[MAXCH];
    // stats
    uint64_t runs, nontrivial, discards, events, ticks, steps, known;
    Counter cnt[MAXCNT];
    uint32_t ncnt;
    uint64_t nsig;
    uint64_t sig[MAXSIG];
    char samples[6][640];
    uint32_t nsamples;
};
static Slot *g_slot = nullptr; // slot of this process (shared memory)
static std::vector<World> &worlds()
{
    static std::vector<World> w;
    return w;
}
void register_world(World w) { worlds().push_back(std::move(w)); }

uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
{
    auto *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}

uint32_t Run::choose(uint32_t n)
{
    uint32_t v;
    if (n <= 1) return 0;
    if (replay)
        v = in_pos < in.size() ? in[in_pos++] % n : 0;
    else
        v = rng.below(n);
    rec.push_back(v);
    if (g_slot && rec.size() <= MAXCH)
    {
        g_slot->ch[rec.size() - 1] = v;
        g_slot->nch                = uint32_t(rec.size());
    }
    if (rec.size() > MAXCH) throw Discard{};
    return v;
}
void Run::ev(const char *fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    trace_hash = mix(trace_hash, hash_bytes(buf, size_t(n)));
    ++events;
    if (verbose) log.emplace_back(buf, size_t(n));
}
void fail(const std::string &cls, const char *fmt, ...)
{
    char buf[1800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{cls, buf};
}
void count(const char *name, uint64_t n)
{
    if (!g_slot) return;
    for (uint32_t i = 0; i < g_slot->ncnt; i++)
        if (g_slot->cnt[i].name == name || !strcmp(g_slot->cnt[i].name, name))
        {
            g_slot->cnt[i].n += n;
            return;
        }
    if (g_slot->ncnt < MAXCNT) g_slot->cnt[g_slot->ncnt++] = {name, n};
}
void phase(const char *p)
{
    if (g_slot)
    {
        strncpy(g_slot->phase, p, sizeof g_slot->phase - 1);
    }
}
void die_violation(const char *cls, const char *msg)
{
    if (g_slot)
    {
        snprintf(g_slot->cls, sizeof g_slot->cls, "%s", cls);
        snprintf(g_slot->msg, sizeof g_slot->msg, "%s (phase: %s)", msg, g_slot->phase);
        g_slot->hash   = R ? mix(R->trace_hash, hash_bytes(cls, strlen(cls))) : 0;
        g_slot->status = ST_VIOLATION;
    }
    _exit(97);
}
std::string strf(const char *fmt, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}
std::string hex(std::string_view s, size_t max)
{
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; i++) o += strf("%02x", (unsigned char)s[i]);
    if (s.size() > max) o += "...";
    return o;
}
std::string quote(std::string_view s, size_t max)
{
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < max; i++)
    {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\')
            (o += '\\') += char(c);
        else if (c >= 32 && c < 127)
            o += char(c);
        else
            o += strf("\\x%02x", c);
    }
    o += s.size() > max ? "\"..." : "\"";
    return o;
}
static std::string jstr(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (o += '\\') += char(c);
        else if (c >= 32 && c < 127)
            o += char(c);
        else
            o += strf("\\u%04x", c);
    }
    return o + "\"";
}

// ------------------------------------------------------------------ executing one run
static double now_s()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void exec_run(const World &w, Run &run)
{
    R       = &run;
    g_steps = 0;
    g_step_limit     = ~0ull;
    g_slot->nch      = 0;
    g_slot->cls[0]   = 0;
    g_slot->msg[0]   = 0;
    g_slot->status   = ST_NONE;
    strcpy(g_slot->phase, "start");
    try
    {
        w.fn(run);
        g_slot->status = ST_OK;
    }
    catch (const Violation &v)
    {
        snprintf(g_slot->cls, sizeof g_slot->cls, "%s", v.cls.c_str());
        snprintf(g_slot->msg, sizeof g_slot->msg, "%s", v.msg.c_str());
        run.trace_hash = mix(run.trace_hash, hash_bytes(v.cls.data(), v.cls.size()));
        g_slot->status = ST_VIOLATION;
    }
    catch (const Discard &)
    {
        g_slot->status = ST_DISCARD;
    }
    g_slot->hash = run.trace_hash;
    R            = nullptr;
}
static uint64_t run_seed(const World &w, uint64_t seed, uint64_t idx)
{
    return mix(mix(hash_bytes(w.id, strlen(w.id)), seed), idx);
}

// ------------------------------------------------------------------ isolated executions
struct Item // one run to execute in an isolated process
{
    bool by_choices;
    std::vector<uint32_t> ch;
    uint64_t seed, idx;
};
struct Outcome
{
    bool violated = false;
    std::string cls, msg;
    uint64_t hash = 0;
    std::vector<uint32_t> rec;
    std::vector<std::string> log;
};
static Slot *g_iso = nullptr;
static std::string g_tmp;
static const World *g_world = nullptr;
static std::string g_self;

static void child_setup()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
static std::string classify_death(int st, Slot *s, const std::string &errfile, bool wall)
{
    if (wall) return "hang:wall-clock";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97 && s->status == ST_VIOLATION) return s->cls;
    std::string err;
    {
        std::ifstream f(errfile);
        std::stringstream ss;
        ss << f.rdbuf();
        err = ss.str();
    }
    auto p = err.find("ERROR: AddressSanitizer: ");
    if (p != err.npos)
    {
        p += 25;
        auto e = err.find_first_of(" \n", p);
        return "crash:asan:" + err.substr(p, e - p);
    }
    if (err.find("LeakSanitizer") != err.npos) return "crash:leak";
    if (err.find("terminate called") != err.npos) return "crash:terminate";
    if (WIFSIGNALED(st)) return strf("crash:signal:%d", WTERMSIG(st));
    return strf("crash:exit:%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
}

static Outcome isolated(const std::vector<Item> &items, bool verbose, double wall = 40)
{
    Outcome o;
    std::string errf = g_tmp + "/iso.err", logf = g_tmp + "/iso.log";
    unlink(logf.c_str());
    g_iso->status = ST_NONE;
    g_iso->cls[0] = g_iso->msg[0] = 0;
    g_iso->nch                    = 0;
    g_iso->ncnt                   = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        child_setup();
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        g_slot = g_iso;
        for (size_t i = 0; i < items.size(); i++)
        {
            Run run;
            run.verbose = verbose && i + 1 == items.size();
            if (items[i].by_choices)
            {
                run.replay = true;
                run.in     = items[i].ch;
            }
            else
                run.rng = Prng(run_seed(*g_world, items[i].seed, items[i].idx));
            exec_run(*g_world, run);
            if (verbose && i + 1 == items.size())
            {
                std::ofstream f(logf);
                for (auto &l : run.log) f << l << "\n";
            }
            if (g_slot->status == ST_VIOLATION && i + 1 < items.size()) _exit(0); // earlier run violates
        }
        _exit(0);
    }
    int st = 0;
    double t0 = now_s();
    bool walled = false;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now_s() - t0 > wall)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            walled = true;
            break;
        }
        usleep(200);
    }
    o.rec.assign(g_iso->ch, g_iso->ch + g_iso->nch);
    o.hash = g_iso->hash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !walled)
    {
        o.violated = g_iso->status == ST_VIOLATION;
        o.cls      = g_iso->cls;
        o.msg      = g_iso->msg;
    }
    else
    {
        o.violated = true;
        o.cls      = classify_death(st, g_iso, errf, walled);
        o.msg      = g_iso->msg[0] ? g_iso->msg : strf("process died, phase '%s'", g_iso->phase);
        if (o.cls.rfind("crash", 0) == 0 || walled) o.hash = hash_bytes(o.cls.data(), o.cls.size());
        if (verbose)
        {
            std::ifstream f(errf);
            std::string l;
            int n = 0;
            while (n++ < 25 && std::getline(f, l)) o.log.push_back("stderr: " + l);
        }
    }
    if (verbose)
    {
        std::ifstream f(logf);
        std::string l;
        std::vector<std::string> ll;
        while (std::getline(f, l)) ll.push_back(l);
        o.log.insert(o.log.begin(), ll.begin(), ll.end());
    }
    return o;
}

// ------------------------------------------------------------------ shrinking
static std::vector<uint32_t> shrink(std::vector<Item> pre, std::vector<uint32_t> best, const std::string &cls,
                                    double budget_s, uint64_t &attempts)
{
    double t_end = now_s() + budget_s;
    auto test    = [&](const std::vector<uint32_t> &c, std::vector<uint32_t> *used) -> bool
    {
        if (now_s() > t_end) return false;
        ++attempts;
        auto items = pre;
        items.push_back({true, c, 0, 0});
        auto o = isolated(items, false, 15);
        if (o.violated && o.cls == cls)
        {
            if (used) *used = o.rec;
            return true;
        }
        return false;
    };
    auto strip = [](std::vector<uint32_t> &v)
    {
        while (!v.empty() && v.back() == 0) v.pop_back();
    };
    auto accept = [&](std::vector<uint32_t> c) -> bool
    {
        strip(c);
        std::vector<uint32_t> used;
        if (!test(c, &used)) return false;
        strip(used);
        best = used.size() <= c.size() ? used : c;
        return true;
    };
    strip(best);
    bool improved = true;
    while (improved && now_s() < t_end)
    {
        improved = false;
        // truncation
        for (size_t len = best.size() / 2; best.size() > 1 && len > 0; len /= 2)
        {
            while (best.size() > len)
            {
                auto c = best;
                c.resize(best.size() - len);
                if (!accept(c)) break;
                improved = true;
            }
        }
        // deletion of blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2)
        {
            for (size_t i = 0; i + len <= best.size() && now_s() < t_end;)
            {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (accept(c))
                    improved = true;
                else
                    i += std::max<size_t>(1, len / 2);
            }
            if (len == 1) break;
        }
        // zero blocks
        for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2)
        {
            for (size_t i = 0; i + len <= best.size() && now_s() < t_end; i += len)
            {
                auto c   = best;
                bool any = false;
                for (size_t k = i; k < i + len; k++) any |= c[k] != 0, c[k] = 0;
                if (any && accept(c)) improved = true;
            }
            if (len == 1) break;
        }
        // reduce values
        for (size_t i = 0; i < best.size() && now_s() < t_end; i++)
        {
            while (i < best.size() && best[i] > 0)
            {
                uint32_t v = best[i];
                auto c     = best;
                c[i]       = v / 2;
                if (accept(c))
                {
                    improved = true;
                    continue;
                }
                if (v > 1)
                {
                    c    = best;
                    c[i] = v - 1;
                    if (v <= 64 && accept(c))
                    {
                        improved = true;
                        continue;
                    }
                }
                break;
            }
        }
    }
    return best;
}

// ------------------------------------------------------------------ replay files
static void write_replay(const std::string &path, const World &w, uint64_t seed, uint64_t idx, const std::vector<Item> &items,
                         const Outcome &o, size_t orig_choices, uint64_t attempts)
{
    std::ofstream f(path);
    f << "{\n \"property\": " << jstr(w.id) << ",\n \"class\": " << jstr(o.cls) << ",\n \"message\": " << jstr(o.msg)
      << ",\n \"seed\": " << seed << ",\n \"run\": " << idx << ",\n \"trace_hash\": \"" << strf("%016lx", o.hash)
      << "\",\n \"choices_before_minimisation\": " << orig_choices << ",\n \"minimisation_attempts\": " << attempts
      << ",\n \"runs\": [\n";
    for (size_t i = 0; i < items.size(); i++)
    {
        f << "  [";
        for (size_t k = 0; k < items[i].ch.size(); k++) f << (k ? "," : "") << items[i].ch[k];
        f << "]" << (i + 1 < items.size() ? ",\n" : "\n");
    }
    f << " ],\n \"log\": [\n";
    for (size_t i = 0; i < o.log.size() && i < 3000; i++)
        f << "  " << jstr(o.log[i]) << (i + 1 < o.log.size() && i + 1 < 3000 ? ",\n" : "\n");
    f << " ]\n}\n";
}
static bool read_replay(const std::string &path, std::string &prop, std::string &cls, std::string &hash,
                        std::vector<Item> &items)
{
    std::ifstream f(path);
    if (!f) return false;
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    auto str      = [&](const char *key)
    {
        auto p = s.find(std::string("\"") + key + "\": \"");
        if (p == s.npos) return std::string();
        p += strlen(key) + 5;
        return s.substr(p, s.find('"', p) - p);
    };
    prop   = str("property");
    cls    = str("class");
    hash   = str("trace_hash");
    auto p = s.find("\"runs\": [");
    if (p == s.npos) return false;
    p += 9;
    for (;;)
    {
        p = s.find_first_of("[]", p);
        if (p == s.npos || s[p] == ']') break;
        auto e = s.find(']', p);
        Item it{true, {}, 0, 0};
        std::stringstream in(s.substr(p + 1, e - p - 1));
        std::string tok;
        while (std::getline(in, tok, ',')) it.ch.push_back(uint32_t(strtoul(tok.c_str(), nullptr, 10)));
        items.push_back(it);
        p = e + 1;
    }
    return !items.empty();
}

// ------------------------------------------------------------------ known findings
static std::vector<std::string> g_known, g_known_text; // violation classes listed for this property
static void load_known(const std::string &path, const char *id)
{
    std::ifstream f(path);
    std::string l;
    std::string pre = std::string("KNOWN property=") + id + " class=";
    while (std::getline(f, l))
        if (l.rfind(pre, 0) == 0)
        {
            auto e = std::min(l.find(' ', pre.size()), l.size());
            g_known.push_back(l.substr(pre.size(), e - pre.size()));
            g_known_text.push_back(e < l.size() ? l.substr(e + 1) : "");
        }
}
static bool is_known(const char *cls) { return std::find(g_known.begin(), g_known.end(), cls) != g_known.end(); }

// ------------------------------------------------------------------ worker
static void worker_batch(const World &w, Slot *slot, uint64_t seed, uint64_t from, uint64_t to, std::atomic<int> *stop)
{
    g_slot = slot;
    slot->batch_start = from;
    for (uint64_t i = from; i < to && !stop->load(); i++)
    {
        slot->run_idx    = i;
        slot->started_ms = uint64_t(now_s() * 1000);
        slot->in_run     = 1;
        Run run;
        run.rng = Prng(run_seed(w, seed, i));
        exec_run(w, run);
        slot->in_run = 0;
        slot->runs++;
        slot->events += run.events;
        slot->ticks += run.ticks;
        slot->steps += g_steps;
        if (slot->status == ST_DISCARD) slot->discards++;
        if (slot->status == ST_VIOLATION)
        {
            if (is_known(slot->cls))
            {
                slot->known++;
                continue;
            }
            stop->store(1);
            _exit(96);
        }
        if (slot->status == ST_OK && run.nontrivial)
        {
            slot->nontrivial++;
            if (slot->nsig < MAXSIG) slot->sig[slot->nsig++] = run.signature;
            if (slot->nsamples < 6 && !run.sample.empty() && (slot->nontrivial % 37) == 1)
                snprintf(slot->samples[slot->nsamples++], 640, "run %lu: %s", i, run.sample.c_str());
        }
    }
    _exit(0);
}

static int cmd_run(const World &w, const std::string &tier, uint64_t seed, unsigned workers, const std::string &evidence,
                   const std::string &replay_dir, uint64_t runs_override, double secs_override, const std::string &meta)
{
    bool thorough   = tier == "thorough";
    uint64_t n_runs = runs_override ? runs_override : (thorough ? w.thorough_runs : w.quick_runs);
    double cap_s    = secs_override > 0 ? secs_override : (thorough ? w.thorough_s : w.quick_s);
    double t0       = now_s();
    printf("%s: tier=%s VERIF_SEED=%lu runs<=%lu cap=%.0fs workers=%u\n", w.id, tier.c_str(), seed, n_runs, cap_s, workers);
    fflush(stdout);

    auto *stop = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Slot *> slots;
    for (unsigned i = 0; i < workers; i++)
        slots.push_back((Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const uint64_t batch = w.batch;
    uint64_t next        = 0;
    struct Cand
    {
        uint64_t batch_start, idx;
        std::string why;
    };
    std::vector<Cand> cands;
    std::vector<pid_t> pids(workers, 0);
    auto launch = [&](unsigned i)
    {
        uint64_t from = next, to = std::min(n_runs, next + batch);
        next      = to;
        slots[i]->in_run = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            child_setup();
            int fd = open((g_tmp + "/w" + std::to_string(i) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            worker_batch(w, slots[i], seed, from, to, stop);
        }
        pids[i] = pid;
    };
    bool capped = false;
    for (unsigned i = 0; i < workers && next < n_runs; i++) launch(i);
    for (;;)
    {
        bool any = false;
        for (unsigned i = 0; i < workers; i++)
        {
            if (!pids[i]) continue;
            int st;
            pid_t r = waitpid(pids[i], &st, WNOHANG);
            if (r == 0)
            {
                any = true;
                if (slots[i]->in_run && now_s() * 1000 - double(slots[i]->started_ms) > 60000)
                {
                    kill(pids[i], SIGKILL);
                    waitpid(pids[i], &st, 0);
                    r = pids[i];
                }
                else
                    continue;
            }
            pids[i] = 0;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            {
                cands.push_back({slots[i]->batch_start, slots[i]->run_idx, slots[i]->cls});
                stop->store(1);
            }
            if (!stop->load() && next < n_runs)
            {
                if (now_s() - t0 < cap_s)
                {
                    launch(i);
                    any = true;
                }
                else
                    capped = true;
            }
        }
        if (!any) break;
        if (now_s() - t0 > cap_s && !capped)
        {
            capped = true;
            stop->store(1); // finish current runs, then stop
        }
        usleep(2000);
    }
    double t_search = now_s() - t0;

    // aggregate
    uint64_t runs = 0, nontriv = 0, disc = 0, events = 0, ticks = 0, steps = 0, known = 0;
    std::map<std::string, uint64_t> cnt;
    std::unordered_set<uint64_t> sigs;
    std::vector<std::string> samples;
    for (auto *s : slots)
    {
        runs += s->runs, nontriv += s->nontrivial, disc += s->discards, events += s->events, ticks += s->ticks,
            steps += s->steps, known += s->known;
        for (uint32_t i = 0; i < s->ncnt; i++) cnt[s->cnt[i].name] += s->cnt[i].n;
        for (uint64_t i = 0; i < s->nsig; i++) sigs.insert(s->sig[i]);
        for (uint32_t i = 0; i < s->nsamples && samples.size() < 8; i++) samples.push_back(s->samples[i]);
    }

    int rc = 0;
    std::string violation_line;
    if (!cands.empty())
    {
        std::sort(cands.begin(), cands.end(), [](auto &a, auto &b) { return a.idx < b.idx; });
        auto c = cands[0];
        // gate 1: same PRNG twice, in isolation
        std::vector<Item> last{{false, {}, seed, c.idx}};
        auto o1 = isolated(last, false), o2 = isolated(last, false);
        std::vector<Item> pre;
        bool stable = true; // same event trace every time; memory errors of the code under test can defeat that
        auto same   = [&](const Outcome &a, const Outcome &b, bool strict)
        {
            if (!a.violated || !b.violated) return false;
            if (a.cls == b.cls && a.hash == b.hash) return true;
            return !strict && (a.cls == b.cls || (a.cls.rfind("crash", 0) == 0 && b.cls.rfind("crash", 0) == 0));
        };
        bool ok = same(o1, o2, true);
        if (!ok)
        {
            // history dependent? replay the whole batch in one process
            std::vector<Item> all;
            for (uint64_t i = c.batch_start; i <= c.idx; i++) all.push_back({false, {}, seed, i});
            auto p1 = isolated(all, false, 120), p2 = isolated(all, false, 120);
            ok = same(p1, p2, true);
            if (!ok && same(o1, o2, false) && same(o1, isolated(last, false), false))
            {
                ok = true, stable = false; // violated every time, but not with one and the same trace
                printf("%s: the violation reproduces, but its event trace differs between executions\n", w.id);
            }
            else
                o1 = p1, o2 = p2;
            if (ok && stable)
            {
                // minimise the history: drop blocks of preceding runs
                pre.assign(all.begin(), all.end() - 1);
                for (size_t len = std::max<size_t>(1, pre.size() / 2);; len /= 2)
                {
                    for (size_t i = 0; i + len <= pre.size();)
                    {
                        auto t = pre;
                        t.erase(t.begin() + i, t.begin() + i + len);
                        t.push_back(last[0]);
                        auto o = isolated(t, false, 60);
                        if (o.violated && o.cls == o1.cls)
                            pre.erase(pre.begin() + i, pre.begin() + i + len);
                        else
                            i += len;
                    }
                    if (len <= 1) break;
                }
                // turn preceding runs into choice lists
                for (auto &p : pre)
                {
                    auto o = isolated({p}, false, 60);
                    p      = {true, o.rec, 0, 0};
                }
            }
        }
        if (!ok)
        {
            printf("ERROR: run %lu failed ('%s') but did not reproduce (first: %d '%s' %016lx, second: %d '%s' %016lx)\n", c.idx,
                   c.why.c_str(), o1.violated, o1.cls.c_str(), o1.hash, o2.violated, o2.cls.c_str(), o2.hash);
            return 2;
        }
        uint64_t attempts = 0;
        size_t orig       = o1.rec.size();
        printf("%s: run %lu violates (%s): %s\n", w.id, c.idx, o1.cls.c_str(), o1.msg.substr(0, 600).c_str());
        fflush(stdout);
        auto best = shrink(pre, o1.rec, o1.cls, thorough ? 120 : 30, attempts);
        mkdir(replay_dir.c_str(), 0755);
        std::string path = replay_dir + "/" + w.id + "-" + std::to_string(seed) + "-" + std::to_string(c.idx) + ".json";
        bool confirmed   = false;
        for (int pass = 0; pass < 2 && !confirmed; pass++)
        {
            auto items = pre;
            items.push_back({true, pass == 0 ? best : o1.rec, 0, 0});
            auto fin = isolated(items, true);
            if (!same(fin, o1, false)) continue;
            if (!stable) fin.hash = 0;
            write_replay(path, w, seed, c.idx, items, fin, orig, attempts);
            // gate 2: fresh process, twice
            confirmed = true;
            for (int k = 0; k < 2; k++)
            {
                std::string cmd = g_self + " replay --quiet " + path + " > /dev/null 2>&1";
                int st          = system(cmd.c_str());
                int xs          = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
                if (xs != 1 && !(xs == 3 && !stable)) confirmed = false;
            }
            if (confirmed)
            {
                printf("%s: minimised %zu -> %zu choices in %lu attempts: [%s] %s\n", w.id, orig, items.back().ch.size(),
                       attempts, fin.cls.c_str(), fin.msg.substr(0, 1500).c_str());
                size_t from = fin.log.size() > 25 ? fin.log.size() - 25 : 0;
                for (size_t i = from; i < fin.log.size(); i++) printf("   | %s\n", fin.log[i].substr(0, 300).c_str());
            }
        }
        if (!confirmed)
        {
            printf("ERROR: violation of run %lu did not replay in a fresh process\n", c.idx);
            return 2;
        }
        violation_line = "VIOLATION property=" + std::string(w.id) + " replay=" + path;
        rc             = 1;
    }
    double wall = now_s() - t0;
    if (!evidence.empty())
    {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jstr(w.id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << runs
          << ",\n  \"distinct_nontrivial\": " << sigs.size() << ",\n  \"rule\": " << jstr(w.rule) << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n    " : "\n    ") << jstr(samples[i]);
        f << "],\n  \"simulated_runs\": " << runs << ",\n  \"runs_planned\": " << n_runs
          << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false") << ",\n  \"runs_per_hour\": "
          << uint64_t(runs / std::max(0.001, t_search) * 3600) << ",\n  \"seeds_per_hour\": "
          << uint64_t(runs / std::max(0.001, t_search) * 3600) << ",\n  \"nontrivial_runs\": " << nontriv
          << ",\n  \"discarded_runs\": " << disc << ",\n  \"simulated_events\": " << events << ",\n  \"simulated_time\": {\"unit\": "
          << jstr(w.time_unit) << ", \"total\": " << ticks << "},\n  \"basic_blocks_executed\": " << steps
          << ",\n  \"distinct_measure\": " << jstr(w.distinct_measure) << ",\n  \"known_finding_runs\": " << known
          << ",\n  \"faults_and_probes\": {";
        bool first = true;
        for (auto &[k, v] : cnt)
        {
            f << (first ? "\n    " : ",\n    ") << jstr(k) << ": " << v;
            first = false;
        }
        f << "},\n  \"components\": {\"real\": [";
        for (size_t i = 0; i < w.real.size(); i++) f << (i ? ", " : "") << jstr(w.real[i]);
        f << "], \"stub\": [";
        for (size_t i = 0; i < w.stub.size(); i++) f << (i ? ", " : "") << jstr(w.stub[i]);
        f << "]}";
        if (!meta.empty()) f << ",\n  \"build\": " << jstr(meta);
        f << "\n },\n \"assumptions\": [";
        for (size_t i = 0; i < w.assumptions.size(); i++) f << (i ? ", " : "") << jstr(w.assumptions[i]);
        f << "],\n \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    }
    printf("%s: %lu runs (%lu non-trivial, %zu distinct, %lu discarded) in %.1fs, %lu events\n", w.id, runs, nontriv, sigs.size(),
           disc, wall, events);
    for (size_t i = 0; i < g_known.size(); i++)
        if (known) printf("KNOWN-FINDING: property=%s %s: %s\n", w.id, g_known[i].c_str(), g_known_text[i].c_str());
    if (rc) printf("%s\n", violation_line.c_str());
    return rc;
}

extern void engine_warmup(const World &w) __attribute__((weak));
int engine_main(int argc, char **argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    // one address space layout for every execution
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SPBSIM_REEXEC"))
    {
        setenv("SPBSIM_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--quiet")
            opt["quiet"] = "1";
        else if (a.rfind("--", 0) == 0 && i + 1 < argc)
            opt[a.substr(2)] = argv[++i];
        else
            pos.push_back(a);
    }
    char self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    g_self    = std::string(self, n > 0 ? size_t(n) : 0);
    char tmpl[] = "/tmp/spbsim.XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    g_tmp = tmpl;
    struct Cleanup
    {
        ~Cleanup()
        {
            if (!g_tmp.empty() && g_tmp.rfind("/tmp/spbsim.", 0) == 0)
            {
                for (const char *f : {"/iso.err", "/iso.log"}) unlink((g_tmp + f).c_str());
                for (int i = 0; i < 64; i++) unlink((g_tmp + "/w" + std::to_string(i) + ".err").c_str());
                rmdir(g_tmp.c_str());
            }
        }
    } cleanup;
    g_iso = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    std::string prop = opt["world"], cls, hash;
    std::vector<Item> items;
    if (cmd == "replay")
    {
        if (pos.empty() || !read_replay(pos[0], prop, cls, hash, items))
        {
            fprintf(stderr, "cannot read replay file\n");
            return 2;
        }
    }
    for (auto &w : worlds())
        if (prop == w.id) g_world = &w;
    if (cmd == "list")
    {
        for (auto &w : worlds()) printf("%s\n", w.id);
        return 0;
    }
    if (!g_world)
    {
        fprintf(stderr, "unknown world '%s'\n", prop.c_str());
        return 2;
    }
    if (engine_warmup) engine_warmup(*g_world);
    uint64_t seed    = strtoull(opt.count("seed") ? opt["seed"].c_str() : "1", nullptr, 10);
    unsigned workers = opt.count("workers") ? unsigned(atoi(opt["workers"].c_str())) : 8;
    if (opt.count("known")) load_known(opt["known"], g_world->id);
    if (cmd == "run")
        return cmd_run(*g_world, opt.count("tier") ? opt["tier"] : "quick", seed, workers, opt["evidence"],
                       opt.count("replays") ? opt["replays"] : "/tmp/replays", strtoull(opt["runs"].c_str(), nullptr, 10),
                       atof(opt["secs"].c_str()), opt["meta"]);
    if (cmd == "replay")
    {
        auto o = isolated(items, true);
        if (!opt.count("quiet"))
        {
            for (auto &l : o.log) printf("   | %s\n", l.c_str());
            printf("violated=%d class=%s hash=%016lx (recorded class=%s hash=%s)\n%s\n", o.violated, o.cls.c_str(), o.hash,
                   cls.c_str(), hash.c_str(), o.msg.c_str());
        }
        if (!o.violated) return 0;
        if (o.cls != cls || (strf("%016lx", o.hash) != hash && hash != strf("%016lx", 0ul))) return 3;
        if (!opt.count("quiet")) printf("VIOLATION property=%s replay=%s\n", g_world->id, pos[0].c_str());
        return 1;
    }
    if (cmd == "hashes") // determinism audit: trace hash of a range of runs
    {
        uint64_t from = strtoull(opt["from"].c_str(), nullptr, 10), to = strtoull(opt["to"].c_str(), nullptr, 10);
        g_slot = g_iso;
        for (uint64_t i = from; i < to; i++)
        {
            Run run;
            run.rng = Prng(run_seed(*g_world, seed, i));
            exec_run(*g_world, run);
            printf("%lu %d %016lx %016lx %lu %s\n", i, g_slot->status, run.trace_hash, run.signature, run.rec.size(), g_slot->cls);
        }
        return 0;
    }
    if (cmd == "one") // verbose single run
    {
        auto o = isolated({{false, {}, seed, strtoull(opt["idx"].c_str(), nullptr, 10)}}, true);
        for (auto &l : o.log) printf("   | %s\n", l.c_str());
        printf("violated=%d class=%s hash=%016lx choices=%zu\n%s\n", o.violated, o.cls.c_str(), o.hash, o.rec.size(), o.msg.c_str());
        return o.violated;
    }
    fprintf(stderr, "usage: run|replay|hashes|one|list\n");
    return 2;
}
} // namespace sim
