#include "heap.hpp"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <new>

namespace sim::heap
{
State st;
thread_local int in_scope = 0;

// ledger: open addressing set of pointers allocated in scope (simulated threads run one at a time)
static const size_t CAP = 1 << 17;
static void *tab[CAP];
static size_t used = 0;
static void *const TOMB = (void *)1;
static size_t slot_of(void *p) { return (size_t(p) >> 4) * 0x9E3779B97F4A7C15ull >> (64 - 17); }
static void add(void *p)
{
    if (used > CAP / 2) return;
    size_t i = slot_of(p);
    while (tab[i] && tab[i] != TOMB) i = (i + 1) & (CAP - 1);
    if (!tab[i]) used++;
    tab[i] = p;
    st.live++;
}
static void del(void *p)
{
    if (!st.live) return;
    size_t i = slot_of(p);
    while (tab[i])
    {
        if (tab[i] == p)
        {
            tab[i] = TOMB;
            st.live--;
            return;
        }
        i = (i + 1) & (CAP - 1);
    }
}
void reset()
{
    if (used) memset(tab, 0, sizeof tab);
    used       = 0;
    auto ms    = st.max_size;
    st         = State{};
    st.max_size = ms;
}
size_t live() { return st.live; }

static bool should_fail(size_t n)
{
    if (!in_scope) return false;
    st.n++;
    if (n > st.max_req) st.max_req = n;
    if (n > st.max_size)
    {
        st.too_big++;
        return true;
    }
    bool f = false;
    switch (st.mode)
    {
    case NORMAL: break;
    case FAIL_ONE: f = st.n == st.fail_at; break;
    case FAIL_FROM: f = st.n >= st.fail_at; break;
    case FAIL_EVERY: f = st.fail_at && st.n % st.fail_at == 0; break;
    }
    st.failed += f;
    return f;
}
static void *get(size_t n, size_t al)
{
    if (should_fail(n)) return nullptr;
    void *p;
    if (n > (1ull << 40)) return nullptr;
    if (al > 16)
        p = aligned_alloc(al, (n + al - 1) / al * al);
    else
        p = malloc(n ? n : 1);
    if (p && in_scope) add(p);
    return p;
}
static void put(void *p)
{
    if (!p) return;
    del(p);
    free(p);
}
} // namespace sim::heap
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *))
    __attribute__((weak));
namespace sim::heap
{
static void mhook(const volatile void *, size_t)
{
    if (in_scope) st.mallocs++;
}
static void fhook(const volatile void *) {}
void install()
{
    static bool done = false;
    if (!done && __sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
    done = true;
}
} // namespace sim::heap
using sim::heap::get;
using sim::heap::put;
void *operator new(size_t n)
{
    if (void *p = get(n, 16)) return p;
    throw std::bad_alloc();
}
void *operator new[](size_t n)
{
    if (void *p = get(n, 16)) return p;
    throw std::bad_alloc();
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n, 16); }
void *operator new(size_t n, std::align_val_t a)
{
    if (void *p = get(n, size_t(a))) return p;
    throw std::bad_alloc();
}
void *operator new[](size_t n, std::align_val_t a)
{
    if (void *p = get(n, size_t(a))) return p;
    throw std::bad_alloc();
}
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put(p); }
