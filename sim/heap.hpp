// Controlled allocator: operator new/delete of the whole harness, with a scope for library calls.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim::heap
{
enum Mode
{
    NORMAL,
    FAIL_ONE,    // the fail_at-th allocation of the scope fails
    FAIL_FROM,   // that one and all later ones fail
    FAIL_EVERY,  // every fail_at-th fails
};
struct State
{
    Mode mode        = NORMAL;
    uint64_t fail_at = 0;      // 1-based
    uint64_t n       = 0;      // operator new calls in scope
    uint64_t mallocs = 0;      // all malloc-family calls in scope (incl. those of operator new)
    uint64_t failed  = 0;      // failures injected
    uint64_t too_big = 0;      // refused because of size
    size_t max_size  = 8u << 20;
    size_t live      = 0;      // outstanding allocations made in scope
    size_t max_req   = 0;      // largest single request in scope, refused ones included
};
extern State st;
extern thread_local int in_scope;
// RAII: allocations made while alive belong to the library call
struct Scope
{
    int saved;
    Scope() : saved(in_scope) { in_scope = 1; }
    ~Scope() { in_scope = saved; }
};
struct Pause
{
    int saved;
    Pause() : saved(in_scope) { in_scope = 0; }
    ~Pause() { in_scope = saved; }
};
void reset();      // forget ledger and counters
size_t live();     // outstanding allocations made in scope
void install();    // malloc hooks
} // namespace sim::heap
