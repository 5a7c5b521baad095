// Contracts of the span.
// VP-CONFIGS: 14x 14d 20x
#include "vp.hpp"

#include "cetl/pf20/span.hpp"

namespace
{

using cetl::pf20::dynamic_extent;
using cetl::pf20::span;

// the span denotes n elements from p on
template <typename S>
void denotes(const S& s, typename S::pointer p, std::size_t n)
{
    using T = typename S::element_type;
    vp_assert(s.data() == p, "N01: starts at the named element");
    vp_assert(s.size() == n, "N01: has the named length");
    vp_assert(s.size_bytes() == n * sizeof(T), "N01: has the named length in bytes");
    vp_assert(s.empty() == (n == 0), "N01: empty exactly when it has no elements");
    vp_assert(s.begin() == p && s.end() == p + n, "N01: iterates from the first element to the end");
    vp_assert(s.rbegin().base() == p + n && s.rend().base() == p, "N01: iterates back from the last element");
    vp_assert(S::extent == dynamic_extent || S::extent == n, "N01: has the fixed length");
    if (n > 0)
    {
        vp_assert(&s.front() == p && &s.back() == p + (n - 1), "N01: access gives the named element");
        vp_assert(&*s.begin() == p && &*s.rbegin() == p + (n - 1), "N01: access gives the named element");
        const std::size_t i = vp_nondet_size("i");
        vp_assume(i < n);
        vp_assert(&s[i] == p + i, "N01: access gives the named element");
        vp_assert(vp_live(&s[i], sizeof(T)), "N01: stays in the viewed range");
    }
}

template <typename T>
T* block(std::size_t n)
{
    vp_assume(n <= (std::size_t(1) << 40U) / sizeof(T));
    return static_cast<T*>(vp_alloc_aligned(n * sizeof(T), alignof(T)));
}

struct Wide
{
    std::uint32_t x[3];
};

// every way to name a part of a dynamic span (the last one by a pair of pointers)
template <typename T>
void dynamic_views(unsigned ways)
{
    const std::size_t n = vp_nondet_size("n");
    T* const          p = block<T>(n);
    const span<T>     s(p, n);
    denotes(s, p, n);
    const std::size_t off   = vp_nondet_size("offset");
    const std::size_t count = vp_nondet_size("count");
    vp_assume(off <= n);
    switch (vp_choose(ways, "part"))
    {
    case 0:
        vp_assume(count <= n);
        denotes(s.first(count), p, count);
        break;
    case 1:
        vp_assume(count <= n);
        denotes(s.last(count), p + (n - count), count);
        break;
    case 2:
        vp_assume(count <= n - off);
        denotes(s.subspan(off, count), p + off, count);
        break;
    case 3: denotes(s.subspan(off), p + off, n - off); break;
    case 4: denotes(s.subspan(off, dynamic_extent), p + off, n - off); break;
    default: denotes(span<T>(p + off, p + n), p + off, n - off); break;
    }
}

}  // namespace

VP_CONTRACT(c_span_dynamic_u8) // N01
{
    dynamic_views<std::uint8_t>(6);
}
VP_CONTRACT(c_span_dynamic_u32) // N01
{
    dynamic_views<std::uint32_t>(6);
}
VP_CONTRACT(c_span_dynamic_wide) // N01
{
    dynamic_views<const Wide>(5);
}
VP_CONTRACT(c_span_fixed_parts_of_dynamic) // N01
{
    const std::size_t         n = vp_nondet_size("n");
    std::uint32_t* const      p = block<std::uint32_t>(n);
    const span<std::uint32_t> s(p, n);
    vp_assume(n >= 5);
    denotes(s.first<0>(), p, 0);
    denotes(s.first<3>(), p, 3);
    denotes(s.last<3>(), p + (n - 3), 3);
    denotes(s.last<0>(), p + n, 0);
    denotes(s.subspan<2>(), p + 2, n - 2);
    denotes(s.subspan<2, 3>(), p + 2, 3);
    denotes(s.subspan<5, 0>(), p + 5, 0);
}
VP_CONTRACT(c_span_fixed) // N01
{
    std::uint32_t                arr[5] = {};
    const span<std::uint32_t, 5> s(arr);
    denotes(s, arr, 5);
    denotes(span<std::uint32_t, 5>(arr, 5U), arr, 5);
    denotes(span<std::uint32_t, 3>(arr + 1, arr + 4), arr + 1, 3);
    denotes(s.first<0>(), arr, 0);
    denotes(s.first<5>(), arr, 5);
    denotes(s.first<2>(), arr, 2);
    denotes(s.last<0>(), arr + 5, 0);
    denotes(s.last<2>(), arr + 3, 2);
    denotes(s.last<5>(), arr, 5);
    denotes(s.subspan<0>(), arr, 5);
    denotes(s.subspan<1>(), arr + 1, 4);
    denotes(s.subspan<5>(), arr + 5, 0);
    denotes(s.subspan<1, 3>(), arr + 1, 3);
    denotes(s.subspan<2, 0>(), arr + 2, 0);
}
VP_CONTRACT(c_span_dynamic_parts_of_fixed) // N01
{
    Wide                arr[7] = {};
    const span<Wide, 7> s(arr);
    const std::size_t   off   = vp_nondet_size("offset");
    const std::size_t   count = vp_nondet_size("count");
    vp_assume(off <= 7);
    switch (vp_choose(4, "part"))
    {
    case 0:
        vp_assume(count <= 7);
        denotes(s.first(count), arr, count);
        break;
    case 1:
        vp_assume(count <= 7);
        denotes(s.last(count), arr + (7 - count), count);
        break;
    case 2:
        vp_assume(count <= 7 - off);
        denotes(s.subspan(off, count), arr + off, count);
        break;
    default: denotes(s.subspan(off), arr + off, 7 - off); break;
    }
}
VP_CONTRACT(c_span_conversions) // N01
{
    const span<std::uint32_t>    none;
    const span<std::uint32_t, 0> nothing;
    vp_assert(none.data() == nullptr && none.size() == 0 && none.empty() && none.begin() == none.end(), "N01: nothing is viewed at first");
    vp_assert(nothing.data() == nullptr && nothing.size() == 0 && nothing.empty() && nothing.begin() == nothing.end(), "N01: nothing is viewed at first");
    std::uint32_t                        arr[4] = {};
    std::array<std::uint32_t, 4>         sa     = {};
    const std::array<std::uint32_t, 4>&  csa    = sa;
    const span<std::uint32_t>            d(arr);
    const span<std::uint32_t, 4>         f(arr);
    denotes(d, arr, 4);
    denotes(span<std::uint32_t>(sa), sa.data(), 4);
    denotes(span<const std::uint32_t>(sa), sa.data(), 4);
    denotes(span<const std::uint32_t>(csa), sa.data(), 4);
    denotes(span<std::uint32_t, 4>(sa), sa.data(), 4);
    denotes(span<const std::uint32_t, 4>(sa), sa.data(), 4);
    denotes(span<const std::uint32_t, 4>(csa), sa.data(), 4);
    denotes(span<const std::uint32_t>(d), arr, 4);
    denotes(span<const std::uint32_t>(f), arr, 4);
    denotes(span<std::uint32_t>(f), arr, 4);
    denotes(span<std::uint32_t, 4>(d), arr, 4);
    denotes(span<const std::uint32_t, 4>(d), arr, 4);
    denotes(span<const std::uint32_t, 4>(f), arr, 4);
    span<std::uint32_t> t(d);
    denotes(t, arr, 4);
    t = span<std::uint32_t>(sa).first(2);
    denotes(t, sa.data(), 2);
    span<std::uint32_t, 4> u(f);
    denotes(u, arr, 4);
    u = span<std::uint32_t, 4>(sa);
    denotes(u, sa.data(), 4);
}
