// P12: calls on different data do not interfere. Real threads, one at a time, switched by the simulator at
// compiler-inserted basic-block callbacks, at reader/writer callbacks and at lock operations; plus nested calls.
#include "world.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <cerrno>
#include <semaphore.h>
namespace sim
{
extern void (*g_edge_hook)();
namespace
{
struct Slice
{
    uint32_t left; // edges until the switch
    uint32_t next; // which of the other live tasks
};
struct Task
{
    pthread_t th;
    sem_t go;
    bool live = false;
    std::function<void()> body;
    bool violated = false, discarded = false;
    Violation v;
    uint32_t in_call = 0;
};
const uint32_t MAXT = 4;
Task *g_task[MAXT];
uint32_t g_ntask = 0;
sem_t g_main;
int g_cur = -1;
thread_local Task *t_self = nullptr;
std::vector<Slice> *g_plan;
size_t g_plan_at;
uint64_t g_left;
uint64_t g_switches, g_in_call_switches, g_sched_hash;
const uint64_t QUANTUM = 30000;
std::vector<std::string> *g_sched_log = nullptr; // verbose runs only

uint32_t live_after(uint32_t from, uint32_t skip)
{
    uint32_t ids[MAXT], n = 0;
    for (uint32_t i = 1; i <= g_ntask; i++)
    {
        uint32_t k = (from + i) % g_ntask;
        if (g_task[k]->live && k != from) ids[n++] = k;
    }
    if (!n) return from;
    return ids[skip % n];
}
void next_slice()
{
    if (g_plan_at < g_plan->size())
        g_left = (*g_plan)[g_plan_at].left + 1;
    else
        g_left = QUANTUM;
}
void switch_from(Task *me, uint32_t skip)
{
    uint32_t to = live_after(uint32_t(g_cur), skip);
    if (g_task[to] == me) return;
    g_switches++;
    if (me->in_call) g_in_call_switches++;
    g_sched_hash = mix(g_sched_hash, mix(to, g_steps));
    if (g_sched_log)
    {
        heap::Pause p;
        g_sched_log->push_back(strf("at basic block %lu: task %d is preempted%s, task %u runs", g_steps, g_cur, me->in_call ? " inside a call" : "", to));
    }
    g_cur = int(to);
    sem_post(&g_task[to]->go);
    sem_wait(&me->go);
}
void tick()
{
    Task *me = t_self;
    if (!me || --g_left) return;
    uint32_t skip = 0;
    if (g_plan_at < g_plan->size()) skip = (*g_plan)[g_plan_at++].next;
    next_slice();
    switch_from(me, skip);
}
void *thread_main(void *a)
{
    Task *me = (Task *)a;
    t_self   = me;
    sem_wait(&me->go);
    try
    {
        me->body();
    }
    catch (Violation &v)
    {
        me->violated = true;
        me->v        = v;
    }
    catch (Discard &)
    {
        me->discarded = true;
    }
    me->live    = false;
    uint32_t to = live_after(uint32_t(g_cur), 0);
    g_sched_hash = mix(g_sched_hash, 1000 + to);
    if (g_task[to]->live)
    {
        g_cur = int(to);
        sem_post(&g_task[to]->go);
    }
    else
        sem_post(&g_main);
    t_self = nullptr;
    return nullptr;
}
} // namespace
// a lock of the code under test is busy: let another task run
bool conc_block()
{
    Task *me = t_self;
    if (!me) return false;
    static thread_local uint64_t spins;
    if (++spins > 20000000) die_violation("deadlock", "a task waits for a lock that is never released");
    g_steps++;
    if (g_steps > g_step_limit) die_violation("deadlock", "a task waits for a lock that is never released");
    switch_from(me, 0);
    return true;
}
static void run_tasks(std::vector<std::function<void()>> bodies, std::vector<Slice> plan, uint32_t first)
{
    g_plan         = &plan;
    g_plan_at      = 0;
    g_ntask        = uint32_t(bodies.size());
    g_switches     = g_in_call_switches = 0;
    g_sched_hash   = 1;
    sem_init(&g_main, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4u << 20);
    std::vector<std::unique_ptr<Task>> own;
    for (uint32_t i = 0; i < g_ntask; i++)
    {
        own.push_back(std::make_unique<Task>());
        Task *t   = own.back().get();
        g_task[i] = t;
        sem_init(&t->go, 0, 0);
        t->live = true;
        t->body = std::move(bodies[i]);
    }
    for (uint32_t i = 0; i < g_ntask; i++) pthread_create(&g_task[i]->th, &at, thread_main, g_task[i]);
    pthread_attr_destroy(&at);
    next_slice();
    g_cur       = int(first % g_ntask);
    g_edge_hook = tick;
    sem_post(&g_task[g_cur]->go);
    sem_wait(&g_main);
    g_edge_hook = nullptr;
    for (uint32_t i = 0; i < g_ntask; i++) pthread_join(g_task[i]->th, nullptr);
    for (uint32_t i = 0; i < g_ntask; i++) sem_destroy(&g_task[i]->go);
    sem_destroy(&g_main);
    g_cur = -1;
    for (auto &t : own)
        if (t->violated) throw t->v;
    for (auto &t : own)
        if (t->discarded) throw Discard{};
}

// ------------------------------------------------------------------ workload
namespace
{
struct Call
{
    int kind; // 0 writer, 1 buffer, 2 container, 3 size, 4 reader, 5 contiguous input
    Fmt f;
    const Ops *o;
    std::shared_ptr<Msg> msg; // source, or base of a decode
    SimReader rd;
    SimWriter wr;
    std::shared_ptr<std::string> data;
    int sub      = 0;
    size_t expect = 0;
    std::vector<std::pair<uint32_t, std::shared_ptr<Call>>> nested; // at callback number
    std::string text() const
    {
        static const char *const n[] = {"serialize to writer", "serialize to buffer", "serialize to container", "serialize_size", "deserialize from reader", "deserialize from buffer"};
        return strf("%s %s as %s", n[kind], o->name, fmt_name(f));
    }
};
struct Result
{
    std::string what; // call
    std::string got;
};
std::string describe(const Res &r)
{
    return r.ok() ? strf("ok(%zu)", r.ret) : std::string(out_name(r.out));
}
void exec_call(const Call &c, std::vector<Result> &out)
{
    const size_t slot = out.size();
    out.push_back({c.text(), ""});
    std::string got;
    auto nest = [&](uint64_t calls)
    {
        if (t_self) tick();
        for (auto &[at, n] : c.nested)
            if (at == calls)
            {
                if (t_self) t_self->in_call++;
                exec_call(*n, out);
                if (t_self) t_self->in_call--;
            }
    };
    if (t_self) t_self->in_call++;
    switch (c.kind)
    {
    case 0:
    {
        SimWriter w(c.wr);
        w.on_call = [&](SimWriter &x) { nest(x.calls); };
        Res r     = serialize_writer(*c.msg, w, c.f);
        got       = describe(r) + " " + (c.f == JSON ? quote(w.out, ~size_t(0)) : hex(w.out, ~size_t(0))) + strf(" after-throw=%lu", w.after_throw);
        break;
    }
    case 1:
    {
        Res s = serialize_size(*c.msg, c.f);
        if (!s.ok() || s.ret != c.expect)
        {
            got = "size " + describe(s);
            break;
        }
        std::unique_ptr<char[]> b(new char[s.ret + 1]);
        b[s.ret] = 0x5a;
        Res r    = serialize_buffer(*c.msg, b.get(), c.f, s.ret);
        got      = describe(r) + " " + hex(std::string_view(b.get(), r.ok() ? std::min(r.ret, s.ret) : 0), ~size_t(0)) + (b[s.ret] == 0x5a ? "" : " overrun");
        break;
    }
    case 2:
    {
        std::string o;
        Res r = serialize_string(*c.msg, o, c.f, c.sub);
        got   = describe(r) + " " + (r.ok() ? hex(o, ~size_t(0)) : std::string());
        break;
    }
    case 3: got = describe(serialize_size(*c.msg, c.f)); break;
    case 4:
    {
        Msg m(*c.msg);
        SimReader rd(c.rd);
        rd.set(*c.data);
        rd.on_call = [&](SimReader &x) { nest(x.calls); };
        Res r      = deserialize_reader(m, rd, c.f, c.sub == 3);
        got        = describe(r) + " " + (r.ok() ? m.text() : std::string()) + (rd.bad_args ? " bad-args" : "") + strf(" after-throw=%lu", rd.after_throw);
        break;
    }
    default:
    {
        Msg m(*c.msg);
        Res r = deserialize_buffer(m, *c.data, c.f, c.sub);
        got   = describe(r) + " " + (r.ok() ? m.text() : std::string());
        break;
    }
    }
    if (t_self) t_self->in_call--;
    out[slot].got = got;
}
std::shared_ptr<Call> draw_call(Run &r, const Ops *prefer, const std::shared_ptr<Msg> &shared, int depth, size_t &bytes)
{
    auto c  = std::make_shared<Call>();
    c->kind = int((uint32_t[]){4, 0, 5, 1, 2, 3, 4, 0}[r.choose(8)]);
    if (depth < 2 && c->kind != 4 && c->kind != 0 && r.choose(2)) c->kind = r.choose(2) ? 4 : 0;
    c->f   = Fmt((uint32_t[]){JSON, PB, PBD, JSON}[r.choose(4)]);
    c->o   = prefer && r.choose(4) ? prefer : &pick_any(r);
    c->sub = int(r.choose(4));
    if (c->kind <= 3)
    {
        if (shared && r.choose(2))
        {
            c->msg = shared;
            c->o   = shared->o;
        }
        else
            c->msg = std::make_shared<Msg>(gen_msg(r, *c->o, true, 3, 25));
        std::string e = encode(*c->msg, c->f);
        c->expect     = e.size();
        bytes += e.size();
        if (c->kind == 0 && r.coin(1, 6))
        {
            c->wr.throw_at_pos = r.choose(uint32_t(e.size()) + 1);
            c->wr.throw_kind   = int(r.choose(N_THROW));
        }
    }
    else
    {
        Msg src       = gen_msg(r, *c->o, true, 3, 25);
        std::string e = encode(src, c->f == PBD ? PB : c->f);
        if (c->f == JSON)
            e = r.choose(2) ? relayout_json(r, e, r.choose(2), true) : e;
        else if (r.choose(3) == 2)
            e = mutate_pb(r, e, true, true);
        if (c->f == PBD) e = delimit(e);
        if (r.coin(1, 5)) e = damage(r, e);
        c->data = std::make_shared<std::string>(e);
        c->msg  = std::make_shared<Msg>(*c->o);
        bytes += e.size();
        if (c->kind == 4)
        {
            c->rd.set(*c->data);
            draw_policy(r, c->rd, e.size());
            if (r.coin(1, 6))
            {
                c->rd.throw_at_pos = r.choose(uint32_t(e.size()) + 1);
                c->rd.throw_kind   = int(r.choose(N_THROW));
            }
        }
    }
    if (depth > 0 && (c->kind == 4 || c->kind == 0))
    {
        uint32_t n = r.choose(3) == 2 ? 1 + r.choose(2) : 0;
        for (uint32_t i = 0; i < n; i++)
        {
            uint32_t at = 1 + (r.choose(2) ? r.choose(6) : r.choose(60));
            c->nested.push_back({at, draw_call(r, c->o, shared, depth - 1, bytes)});
        }
    }
    return c;
}
} // namespace

static void w_p12(Run &r)
{
    struct Reset
    {
        ~Reset()
        {
            g_own_step_limit = false;
            g_step_limit     = ~0ull;
        }
    } reset;
    const Ops *prefer = r.choose(3) ? &pick_any(r) : nullptr;
    std::shared_ptr<Msg> shared;
    if (r.choose(3) == 2) shared = std::make_shared<Msg>(gen_msg(r, prefer ? *prefer : pick_any(r), true, 3, 25));
    uint32_t tasks = 1 + r.choose(4), total = 0;
    size_t bytes   = 0;
    std::vector<std::vector<std::shared_ptr<Call>>> calls(tasks);
    for (auto &t : calls)
    {
        uint32_t n = 1 + r.choose(tasks == 1 ? 3 : 2);
        for (uint32_t i = 0; i < n; i++) t.push_back(draw_call(r, prefer, shared, 2, bytes)), total++;
    }
    std::vector<Slice> plan;
    if (tasks > 1)
    {
        uint32_t n = r.choose(24), scale = r.choose(3);
        for (uint32_t i = 0; i < n; i++)
        {
            uint32_t mag = 1u << (scale == 0 ? r.choose(5) : scale == 1 ? 3 + r.choose(7) : r.choose(12));
            plan.push_back({mag / 2 + r.choose(mag), r.choose(tasks - 1)});
        }
    }
    uint32_t first = r.choose(tasks);
    // together
    g_own_step_limit = true;
    const uint64_t budget = 4000000ull * total + 60000ull * bytes;
    std::vector<std::vector<Result>> got(tasks), want(tasks);
    std::string shared_before = shared ? shared->text() : "";
    g_step_limit              = g_steps + budget;
    if (r.verbose)
    {
        std::function<void(const Call &, std::string)> show = [&](const Call &c, std::string ind)
        {
            r.log.push_back(ind + c.text() + (c.kind == 4 ? ", " + policy_text(c.rd) : "") + (c.data ? ": " + quote(*c.data, 200) : ""));
            for (auto &[at, n] : c.nested) show(*n, ind + strf("  in callback %u: ", at));
        };
        for (uint32_t i = 0; i < tasks; i++)
            for (auto &c : calls[i]) show(*c, strf("task %u: ", i));
    }
    std::vector<std::function<void()>> bodies;
    for (uint32_t i = 0; i < tasks; i++)
        bodies.push_back(
            [&, i]
            {
                for (auto &c : calls[i]) exec_call(*c, got[i]);
            });
    r.ev("%u tasks, %u calls, %zu planned switches", tasks, total, plan.size());
    std::vector<std::string> slog;
    g_sched_log = r.verbose ? &slog : nullptr;
    if (tasks == 1)
        bodies[0]();
    else
        run_tasks(std::move(bodies), plan, first);
    if (tasks == 1) g_switches = g_in_call_switches = 0, g_sched_hash = 1;
    g_sched_log             = nullptr;
    for (size_t i = 0; i < slog.size() && i < 200; i++) r.log.push_back(slog[i]);
    const uint64_t switches = g_switches, in_call = g_in_call_switches, sh = g_sched_hash;
    // alone: the same calls one after the other, nested ones separately
    g_step_limit = g_steps + budget * 2;
    bool nested  = false;
    std::function<void(const Call &, std::vector<Result> &, std::vector<Result> &)> alone = [&](const Call &c, std::vector<Result> &g, std::vector<Result> &w)
    {
        Call solo(c);
        solo.nested.clear();
        exec_call(solo, w);
        (void)g;
    };
    for (uint32_t i = 0; i < tasks; i++)
    {
        // nested calls run in the order in which their callbacks came; match them by replaying the nesting alone
        std::vector<Result> seq;
        for (auto &c : calls[i]) exec_call(*c, seq); // one thread, nested as before
        if (seq.size() != got[i].size()) fail("interference:calls", "task %u made %zu calls among other tasks, %zu without them", i, got[i].size(), seq.size());
        for (size_t k = 0; k < seq.size(); k++)
            if (seq[k].got != got[i][k].got)
                fail("interference:tasks", "task %u, call %zu (%s) among %u tasks gives %s, without them %s", i, k, seq[k].what.c_str(), tasks, clip(got[i][k].got, 300).c_str(), clip(seq[k].got, 300).c_str());
        // every call on its own, without nesting
        std::vector<const Call *> order;
        std::function<void(const Call &)> flat = [&](const Call &c)
        {
            std::vector<Result> w;
            alone(c, seq, w);
            for (auto &x : seq)
                if (x.what == w[0].what && x.got == w[0].got) goto found;
            fail("interference:nested", "call '%s' with nested calls gives a result different from its own: alone %s", w[0].what.c_str(), clip(w[0].got, 400).c_str());
        found:
            order.push_back(&c);
        };
        size_t expect = 0;
        for (auto &c : calls[i])
        {
            flat(*c);
            expect++;
        }
        // nested ones that were reached
        if (seq.size() > expect)
        {
            nested = true;
            std::vector<Result> all;
            std::function<void(const Call &)> gather = [&](const Call &c)
            {
                for (auto &[at, n] : c.nested)
                {
                    alone(*n, seq, all);
                    gather(*n);
                }
            };
            for (auto &c : calls[i])
            {
                alone(*c, seq, all);
                gather(*c);
            }
            for (auto &x : seq)
            {
                bool ok = false;
                for (auto &y : all) ok |= y.what == x.what && y.got == x.got;
                if (!ok) fail("interference:nested", "nested call '%s' gives %s, which is not what it gives alone", x.what.c_str(), clip(x.got, 400).c_str());
            }
            count("probe:nested-call", seq.size() - expect);
        }
    }
    if (shared && shared->text() != shared_before) fail("interference:shared", "a message changed while it was serialized");
    for (uint32_t i = 0; i < tasks; i++)
        for (auto &g : got[i]) r.evh(hash_bytes(g.got.data(), g.got.size()));
    r.ticks += switches;
    count("fault:preemption", switches);
    count("fault:preemption-inside-call", in_call);
    if (shared) count("probe:shared-message");
    r.nontrivial = in_call > 0 || nested;
    r.sig(sh);
    for (auto &g : got) for (auto &x : g) r.sig(hash_bytes(x.got.data(), x.got.size()));
    r.evh(sh);
    r.sample = strf("%u tasks, %u calls, %lu switches (%lu inside calls)%s%s", tasks, total, switches, in_call, nested ? ", nested calls" : "", shared ? ", shared message" : "");
}
static Reg p12({"P12", [](Run &r) { lib_world(r, w_p12); }, 60000, 20000000, 60, 3000,
                "one run = 1-4 threads each making 1-3 serialize/deserialize calls (valid, damaged, failing streams; some nested inside callbacks of others; some on one shared message), switched by a drawn plan of up to 24 preemptions counted in basic blocks of library code; non-trivial = at least one switch inside a library call, or a nested call executed",
                LIB_REAL,
                {"byte streams (user reader/writer callbacks)", "operator new/delete", "thread scheduler (baton; pthread mutexes and static-initialisation guards yield instead of blocking)", "wall clock (step counter)"},
                LIB_ASSUME, "hash of (sequence of (task switched to, basic-block count at the switch), all call results)", "context switches", 24});
} // namespace sim

// ------------------------------------------------------------------ locks yield instead of blocking
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (sim::g_edge_hook)
        for (;;)
        {
            int e = pthread_mutex_trylock(m);
            if (e != EBUSY) return e;
            if (!sim::conc_block()) break;
        }
    using F       = int (*)(pthread_mutex_t *);
    static constinit F real = nullptr;
    if (!real) real = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real(m);
}
// Itanium ABI guard variable: byte 0 = initialised, byte 1 = in progress
extern "C" int __cxa_guard_acquire(uint64_t *g)
{
    auto *b = (volatile unsigned char *)g;
    for (;;)
    {
        if (b[0]) return 0;
        if (!b[1])
        {
            b[1] = 1;
            return 1;
        }
        if (!sim::g_edge_hook || !sim::conc_block()) abort(); // recursive initialisation
    }
}
extern "C" void __cxa_guard_release(uint64_t *g)
{
    auto *b = (volatile unsigned char *)g;
    b[1]    = 0;
    b[0]    = 1;
}
extern "C" void __cxa_guard_abort(uint64_t *g) { ((volatile unsigned char *)g)[1] = 0; }
