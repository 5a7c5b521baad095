// Contracts of the monotonic memory resource.
// VP-CONFIGS: 14x 14n
#include "res.hpp"

#include "cetl/pf17/memory_resource.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"

namespace
{

struct Buf
{
    char*       p;
    std::size_t n;
};

Buf any_buffer()
{
    Buf b{nullptr, 0};
    if (vp_nondet_bool("has_buffer"))
    {
        const std::size_t mis = vp_nondet_u16("misalign") & 4095U;
        b.n                   = vp_nondet_size("buffer_size");
        vp_assume(b.n <= rs::BIG);
        b.p = static_cast<char*>(vp_alloc(b.n, mis));
    }
    return b;
}

struct Got
{
    char*       p;
    std::size_t s, a;
};

bool fits(const Buf& b, std::size_t s, std::size_t a)
{
    if (b.p == nullptr)
    {
        return false;
    }
    const std::size_t off = (std::size_t(0) - reinterpret_cast<std::uintptr_t>(b.p)) & (a - 1);
    return off <= b.n && s <= b.n - off;
}

template <typename D>
Got take(D& d, const Buf& b, std::size_t a)
{
    Got g{};
    g.s = vp_nondet_size("size");
    g.a = a;
    vp_assume(g.s > 0);
    rs::reset();
#if defined(__cpp_exceptions)
    try
    {
        g.p = static_cast<char*>(d.allocate(g.s, g.a));
        vp_assert(g.p != nullptr, "M02: allocation failure is an exception");
    } catch (const std::bad_alloc&)
    {
        g.p = nullptr;
    }
#else
    g.p = static_cast<char*>(d.allocate(g.s, g.a));
#endif
    if (g.p == nullptr)
    {
        vp_assert(rs::gets <= 1, "M02: a refused request does not use up memory of the upstream resource");
        return g;
    }
    vp_assert(rs::aligned(g.p, g.a), "M02: memory is aligned as requested");
    if (vp_same_object(g.p, b.p))
    {
        const std::size_t off = static_cast<std::size_t>(g.p - b.p);
        vp_assert(off <= b.n && g.s <= b.n - off, "M02: memory lies inside the initial buffer");
    }
    else
    {
        const rs::Blk* const k = rs::find(g.p);
        vp_assert(k != nullptr, "M02: other memory lies in a block of the upstream resource");
        const std::size_t off = static_cast<std::size_t>(g.p - k->base);
        vp_assert(off <= k->size && g.s <= k->size - off, "M02: memory lies inside the upstream block");
    }
    g.p[0]       = 17;
    g.p[g.s - 1] = 18;
    return g;
}

void apart(const Got& x, const Got& y)
{
    if (x.p != nullptr && y.p != nullptr && vp_same_object(x.p, y.p))
    {
        vp_cover("same block");
        const std::size_t d = static_cast<std::size_t>(y.p - x.p);
        vp_assert(d >= x.s && std::size_t(0) - d >= y.s, "M02: live blocks do not overlap");
    }
}

using Mono = cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource;

}  // namespace

VP_CONTRACT(c_m02_request) // M02 align=1 unroll=20
{
    rs::init();
    rs::may_fail = true;
    const Buf b  = any_buffer();
    rs::Mr    up(1, false, vp_nondet_size("up_max"));
    {
        Mono d(b.p, b.n, &up);
        Got  x = take(d, b, rs::any_align("align"));
        vp_assert(x.p != nullptr || !fits(b, x.s, x.a), "M02: a request that fits the initial buffer is served");
        if (x.p == nullptr)
        {
            vp_cover("refused");
        }
        else if (vp_same_object(x.p, b.p))
        {
            vp_cover("from buffer");
        }
        else
        {
            vp_cover("from upstream");
        }
        d.deallocate(x.p, x.s, x.a);
        vp_assert(rs::puts_ == 0, "M02: nothing goes back before release");
    }
    vp_assert(rs::live_blocks == 0, "M02: every upstream block goes back");
}
VP_CONTRACT(c_m02_two) // M02 align=1 unroll=20
{
    rs::init();
    rs::may_fail = true;
    const Buf b  = any_buffer();
    rs::Mr    up(1, false, vp_nondet_size("up_max"));
    {
        Mono d(b.p, b.n, &up);
        Got  x = take(d, b, rs::some_align("align"));
        Got  y = take(d, b, 16);
        apart(x, y);
        if (x.p != nullptr && y.p != nullptr && b.p != nullptr)
        {
            vp_cover("both");
        }
    }
    vp_assert(rs::live_blocks == 0, "M02: every upstream block goes back");
}
VP_CONTRACT(c_m02_release) // M02 align=1 unroll=20
{
    rs::init();
    rs::may_fail = true;
    const Buf b  = any_buffer();
    rs::Mr    up(1, false, vp_nondet_size("up_max"));
    {
        Mono d(b.p, b.n, &up);
        Got  x = take(d, b, rs::some_align("align"));
        d.release();
        vp_assert(rs::live_blocks == 0, "M02: every upstream block goes back");
        Got z = take(d, b, 16);
        vp_assert(!fits(b, z.s, z.a) || (z.p != nullptr && vp_same_object(z.p, b.p)), "M02: after release the initial buffer is used from its start");
        d.release();
        d.release();
        vp_assert(rs::live_blocks == 0, "M02: every upstream block goes back");
    }
    vp_assert(rs::live_blocks == 0, "M02: every upstream block goes back");
}
VP_CONTRACT(c_m02_initial_size) // M02 align=1 unroll=20
{
    rs::init();
    rs::may_fail = true;
    const Buf b{nullptr, 0};
    rs::Mr    up(1, false, vp_nondet_size("up_max"));
    {
        Mono d(vp_nondet_size("initial_size"), &up);
        vp_assert(d.upstream_resource() == &up && d.is_equal(d) && !d.is_equal(up), "M02: a resource equals only itself");
        Got x = take(d, b, rs::any_align("align"));
    }
    vp_assert(rs::live_blocks == 0, "M02: every upstream block goes back");
}
VP_CONTRACT(c_m02_three) // M02 align=1 unroll=20 bounded=upstream_blocks<=3 tier=thorough time=3000
{
    rs::init();
    const Buf b{nullptr, 0};
    rs::Mr    up(1, false);
    {
        Mono d(&up);
        Got  x = take(d, b, 8);
        Got  y = take(d, b, 8);
        Got  z = take(d, b, 8);
        apart(x, y);
        apart(x, z);
        apart(y, z);
    }
    vp_assert(rs::live_blocks == 0, "M02: every upstream block goes back");
}
