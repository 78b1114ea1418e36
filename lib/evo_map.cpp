// Field-by-field projection between the schema versions of evo.proto (oracle of P16).
#include "fields.hpp"
#include "ops.hpp"
#include "tables_evo.hpp"
#include <cstring>
namespace sim
{
using namespace sime;
template <class A, class B> static void conv(const A &a, B &b)
{
    if constexpr (std::is_same_v<A, B>)
        copy_val(b, a);
    else
    {
        if constexpr (requires { a.keep; b.keep; })
        {
            copy_val(b.keep, a.keep);
            copy_val(b.nums, a.nums);
            if (a.deep)
            {
                b.deep = std::make_unique<B>();
                conv(*a.deep, *b.deep);
            }
        }
#define SAME(x)                                                                                                        \
    if constexpr (requires { a.x; b.x; }) copy_val(b.x, a.x);
        if constexpr (!requires { a.keep; })
        {
            SAME(a)
            SAME(b)
            SAME(c)
            SAME(e)
            SAME(h)
            SAME(lvl)
            SAME(z)
            if constexpr (requires { a.in; b.in; })
            {
                if (a.in.has_value())
                {
                    b.in.emplace();
                    conv(*a.in, *b.in);
                }
                b.k.clear();
                for (auto &x : a.k) conv(x, b.k.emplace_back());
            }
        }
#undef SAME
    }
}
template <class F> static bool with(const Ops *o, F f)
{
#define T(t)                                                                                                           \
    if (!strcmp(o->name, "sime." #t)) return f((t *)nullptr), true;
    T(New) T(Old) T(Older) T(Oldest) T(InnerNew) T(InnerOld)
#undef T
    return false;
}
void evo_project(const Msg &from, Msg &to)
{
    with(from.o,
         [&](auto *a)
         {
             with(to.o,
                  [&](auto *b)
                  {
                      using A = std::remove_pointer_t<decltype(a)>;
                      using B = std::remove_pointer_t<decltype(b)>;
                      conv(*(const A *)from.p, *(B *)to.p);
                  });
         });
}
} // namespace sim
