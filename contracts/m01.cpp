// Contracts of the single-buffer memory resources.
// VP-CONFIGS: 14x 14n
#include "res.hpp"

#include "cetl/pf17/array_memory_resource.hpp"
#include "cetl/pf17/buffer_memory_resource.hpp"
#include "cetl/pmr/buffer_memory_resource_delegate.hpp"

namespace
{

struct Buf
{
    char*       p;
    std::size_t n;
};

Buf any_buffer()
{
    Buf b{nullptr, 0};
    if (vp_nondet_bool("has_buffer"))
    {
        const std::size_t mis = vp_nondet_u16("misalign") & 4095U;
        b.n                   = vp_nondet_size("buffer_size");
        vp_assume(b.n <= rs::BIG);
        b.p = static_cast<char*>(vp_alloc(b.n, mis));
    }
    return b;
}

struct Got
{
    char*       p;
    std::size_t s, a;
    bool        in_buffer;
};

bool fits(const Buf& b, std::size_t s, std::size_t a)
{
    if (b.p == nullptr)
    {
        return false;
    }
    const std::size_t off = (std::size_t(0) - reinterpret_cast<std::uintptr_t>(b.p)) & (a - 1);
    return off <= b.n && s <= b.n - off;
}

void inside(const Buf& b, const char* p, std::size_t s, std::size_t a)
{
    const std::size_t off = static_cast<std::size_t>(p - b.p);
    vp_assert(off <= b.n && s <= b.n - off, "M01: memory from the buffer lies inside the buffer");
    vp_assert(rs::aligned(p, a), "M01: memory from the buffer is aligned");
}

template <typename D>
Got take(D& d, const Buf& b, bool& used, std::size_t up_max, bool up_fails, bool any = false)
{
    Got g{};
    g.s = vp_nondet_size("size");
    g.a = any ? rs::any_align("align") : rs::some_align("align");
    vp_assume(g.s > 0);
    rs::reset();
#if defined(__cpp_exceptions)
    try
    {
        g.p = static_cast<char*>(d.allocate(g.s, g.a));
        vp_assert(g.p != nullptr, "M01: allocation failure is an exception");
    } catch (const std::bad_alloc&)
    {
        g.p = nullptr;
    }
#else
    g.p = static_cast<char*>(d.allocate(g.s, g.a));
#endif
    if (g.p != nullptr && vp_same_object(g.p, b.p))
    {
        vp_cover("from buffer");
        g.in_buffer = true;
        vp_assert(!used, "M01: the buffer serves one live allocation at a time");
        vp_assert(rs::gets == 0, "M01: one source per request");
        inside(b, g.p, g.s, g.a);
        used = true;
    }
    else if (g.p != nullptr)
    {
        vp_assert(rs::gets == 1 && rs::last_ptr == g.p, "M01: other memory comes from upstream");
        vp_assert(rs::last_size == g.s && rs::last_align == g.a, "M01: upstream is asked for the same size and alignment");
        vp_assert(used || !fits(b, g.s, g.a), "M01: a request that fits the free buffer is served from it");
    }
    else
    {
        vp_cover("refused");
        vp_assert(used || !fits(b, g.s, g.a), "M01: a request that fits the free buffer is served from it");
        vp_assert(rs::failed || g.s > up_max || up_fails, "M01: refused only if upstream refuses");
    }
    return g;
}

template <typename D>
void give(D& d, const Got& g, bool& used)
{
    if (g.p == nullptr)
    {
        return;
    }
    rs::reset();
    d.deallocate(g.p, g.s, g.a);
    if (g.in_buffer)
    {
        vp_assert(rs::puts_ == 0, "M01: the buffer is not released to upstream");
        used = false;
    }
    else
    {
        vp_assert(rs::puts_ == 1, "M01: an upstream block is returned to upstream once");
    }
}

template <typename D>
void resize(D& d, const Buf& b, Got& g)
{
    if (g.p == nullptr)
    {
        return;
    }
    const std::size_t n = vp_nondet_size("new_size");
    const std::size_t k = vp_nondet_size("k");
    vp_assume(n > 0);
    const bool         kept = k < g.s && k < n;
    const std::uint8_t c    = vp_nondet_u8("byte");
    if (kept)
    {
        g.p[k] = static_cast<char>(c);
    }
    rs::reset();
    char* r = nullptr;
#if defined(__cpp_exceptions)
    try
    {
        r = static_cast<char*>(d.reallocate(g.p, g.s, n, g.a));
    } catch (const std::bad_alloc&)
    {
    }
#else
    r = static_cast<char*>(d.reallocate(g.p, g.s, n, g.a));
#endif
    if (r == nullptr)
    {
        vp_cover("not resized");
        if (!g.in_buffer && rs::find(g.p) == nullptr)
        {
            vp_assert(false, "M01: a failed resize leaves the block valid");
        }
    }
    else
    {
        vp_cover("resized");
        if (g.in_buffer)
        {
            vp_assert(vp_same_object(r, b.p), "M01: a resized buffer block stays in the buffer");
            inside(b, r, n, g.a);
        }
        else
        {
            vp_assert(rs::resizes == 1 && rs::last_ptr == r && rs::last_size == n, "M01: upstream resizes its own blocks");
        }
        g.p = r;
        g.s = n;
    }
    if (kept)
    {
        vp_assert(static_cast<std::uint8_t>(g.p[k]) == c, "M01: a resized block keeps its content");
    }
}

// one request of any size and alignment, while the buffer is free
template <typename D>
void request(D& d, const Buf& b, std::size_t up_max, bool up_fails)
{
    bool used    = false;
    rs::may_fail = !up_fails;
    Got x        = take(d, b, used, up_max, up_fails, true);
    give(d, x, used);
    vp_assert(rs::live_blocks == 0, "M01: every upstream block was returned");
}

// two live requests, released in any order
template <typename D>
void history(D& d, const Buf& b, std::size_t up_max, bool up_fails)
{
    bool used    = false;
    rs::may_fail = !up_fails;
    Got x        = take(d, b, used, up_max, up_fails);
    Got y        = take(d, b, used, up_max, up_fails);
    if (vp_choose(2, "first") == 0)
    {
        give(d, x, used);
        Got z = take(d, b, used, up_max, up_fails);
        give(d, y, used);
        give(d, z, used);
    }
    else
    {
        give(d, y, used);
        give(d, x, used);
    }
    vp_assert(rs::live_blocks == 0, "M01: every upstream block was returned");
    vp_assert(!used, "M01: the buffer is free");
}

template <typename D>
void resizing(D& d, const Buf& b, std::size_t up_max, bool up_fails)
{
    bool used    = false;
    rs::may_fail = !up_fails;
    Got x        = take(d, b, used, up_max, up_fails);
    resize(d, b, x);
    Got y = take(d, b, used, up_max, up_fails);
    give(d, x, used);
    give(d, y, used);
    vp_assert(rs::live_blocks == 0, "M01: every upstream block was returned");
}

using Delegate  = cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<rs::Plain>;
using DelegateR = cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<cetl::pf17::pmr::memory_resource>;

void maximum(std::size_t r, std::size_t b, std::size_t u)
{
    constexpr std::size_t M  = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
    const std::size_t     bm = b < M ? b : M;
    const std::size_t     um = u < M ? u : M;
    vp_assert(r >= bm && r >= um, "M01: the maximum size understates neither source");
    vp_assert(r <= M && r <= bm + um, "M01: the maximum size does not overflow");
}

}  // namespace

VP_CONTRACT(c_m01_delegate) // M01
{
    rs::init();
    const Buf         b  = any_buffer();
    const std::size_t um = vp_nondet_size("up_max");
    rs::Plain         up{1};
    Delegate          d(b.p, b.n, &up, um);
    vp_assert(d.data() == b.p && d.size() == b.n && d.upstream_resource() == &up, "M01: the resource has the given parts");
    maximum(d.max_size(), b.n, um);
    history(d, b, um, false);
}
VP_CONTRACT(c_m01_delegate_request) // M01
{
    rs::init();
    const Buf         b  = any_buffer();
    const std::size_t um = vp_nondet_size("up_max");
    rs::Plain         up{1};
    Delegate          d(b.p, b.n, &up, um);
    request(d, b, um, false);
}
VP_CONTRACT(c_m01_delegate_max) // M01
{
    const std::size_t n  = vp_nondet_size("buffer_size");
    const std::size_t um = vp_nondet_size("up_max");
    char              c;
    rs::Plain         up{1};
    Delegate          d(&c, n, &up, um);
    maximum(d.max_size(), n, um);
}
VP_CONTRACT(c_m01_delegate_resize) // M01
{
    rs::init();
    const Buf         b  = any_buffer();
    const std::size_t um = vp_nondet_size("up_max");
    rs::Plain         up{1};
    Delegate          d(b.p, b.n, &up, um);
    resizing(d, b, um, false);
}
VP_CONTRACT(c_m01_delegate_resize_upstream) // M01
{
    rs::init();
    const Buf         b  = any_buffer();
    const std::size_t um = vp_nondet_size("up_max");
    rs::Mr            up(1, true);
    DelegateR         d(b.p, b.n, &up, um);
    resizing(d, b, um, false);
}
VP_CONTRACT(c_m01_buffer) // M01
{
    rs::init();
    const Buf                                           b  = any_buffer();
    const std::size_t                                   um = vp_nondet_size("up_max");
    rs::Mr                                              up(1, true);
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource d(b.p, b.n, &up, um);
    vp_assert(d.data() == b.p && d.size() == b.n, "M01: the resource has the given parts");
    maximum(d.max_size(), b.n, um);
    vp_assert(d.is_equal(d) && !d.is_equal(up), "M01: a resource equals only itself");
    history(d, b, um, false);
}
VP_CONTRACT(c_m01_buffer_request) // M01
{
    rs::init();
    const Buf                                           b  = any_buffer();
    const std::size_t                                   um = vp_nondet_size("up_max");
    rs::Mr                                              up(1, true);
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource d(b.p, b.n, &up, um);
    request(d, b, um, false);
}
VP_CONTRACT(c_m01_buffer_resize) // M01
{
    rs::init();
    const Buf                                           b  = any_buffer();
    const std::size_t                                   um = vp_nondet_size("up_max");
    rs::Mr                                              up(1, true);
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource d(b.p, b.n, &up, um);
    resizing(d, b, um, false);
}
VP_CONTRACT(c_m01_buffer_alone) // M01
{
    rs::init();
    const Buf                                           b = any_buffer();
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource d(b.p, b.n);
    maximum(d.max_size(), b.n, 0);
    history(d, b, 0, true);
}
VP_CONTRACT(c_m01_buffer_moved) // M01
{
    rs::init();
    const Buf                                           b = any_buffer();
    const std::size_t                                   um = vp_nondet_size("up_max");
    rs::Mr                                              up(1, true);
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource e(b.p, b.n, &up, um);
    bool                                                used = false;
    rs::may_fail                                             = true;
    Got                                                 x    = take(e, b, used, um, false);
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource d(std::move(e));
    Got                                                 y = take(d, b, used, um, false);
    give(d, x, used);
    give(d, y, used);
    vp_assert(rs::live_blocks == 0, "M01: every upstream block was returned");
}
VP_CONTRACT(c_m01_array) // M01
{
    rs::init();
    const std::size_t                                       um = vp_nondet_size("up_max");
    rs::Mr                                                  up(1, true);
    cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<100> d(&up, um);
    const Buf                                               b{static_cast<char*>(d.data()), d.size()};
    vp_assert(b.n == 100, "M01: the resource has the given size");
    maximum(d.max_size(), b.n, um);
    history(d, b, um, false);
}
VP_CONTRACT(c_m01_array_request) // M01
{
    rs::init();
    const std::size_t                                       um = vp_nondet_size("up_max");
    rs::Mr                                                  up(1, true);
    cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<100> d(&up, um);
    const Buf                                               b{static_cast<char*>(d.data()), d.size()};
    request(d, b, um, false);
}
VP_CONTRACT(c_m01_array_resize) // M01
{
    rs::init();
    const std::size_t                                       um = vp_nondet_size("up_max");
    rs::Mr                                                  up(1, true);
    cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<100> d(&up, um);
    const Buf                                               b{static_cast<char*>(d.data()), d.size()};
    resizing(d, b, um, false);
}
VP_CONTRACT(c_m01_array_alone) // M01
{
    rs::init();
    cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<100> d;
    const Buf                                               b{static_cast<char*>(d.data()), d.size()};
    maximum(d.max_size(), b.n, 0);
    history(d, b, 0, true);
}
