// Contracts of VariableLengthArray<T>: operations on one array.
// VP-CONFIGS: 14x 14n
#include "vla.hpp"

using AE = gh::Alloc<Elem, false, false, false>;
using AU = gh::Alloc<std::uint32_t, false, false, false>;
using VE = cetl::VariableLengthArray<Elem, AE>;
using VU = cetl::VariableLengthArray<std::uint32_t, AU>;

namespace
{

template <typename V, typename A, typename Op>
void append(Op op)
{
    gh::init();
    gh::limit = vp_nondet_size("limit");
    vp_assume(gh::limit <= (std::size_t(1) << 40));
    {
        V                   v(vp_nondet_size("max"), A(1));
        const View          p = make(v, "cap", "n");
        const std::uint32_t x = vp_nondet_u32("x");
        invariant(v);
        gh::may_fail = true;
        bool       length;
        const bool threw   = refusable([&] { op(v, x); }, length);
        const bool refused = threw || (!exceptions && v.size() == p.n);
        invariant(v);
        vp_assert(threw || !exceptions || v.size() != p.n, "V01: an append that returns has appended");
        if (refused)
        {
            vp_cover("refused");
            vp_assert(gh::failed || p.n >= v.max_size(), "V03: refused only at the maximum or on allocation failure");
            vp_assert(!length || p.n >= v.max_size(), "V03: length error only at the maximum size");
            vp_assert(v.size() == p.n, "V03: refused append leaves the size");
        }
        else
        {
            vp_cover("appended");
            vp_assert(v.size() == p.n + 1, "V01: append grows the size by one");
            vp_assert(p.n < v.max_size(), "V03: no append at the maximum size");
        }
        if (gh::J < v.size())
        {
            if (gh::J < p.n)
            {
                vp_cover("kept");
                vp_assert(at(v) == p.val, "V01/V03: append keeps the other elements");
            }
            else
            {
                vp_cover("new");
                vp_assert(gh::J == p.n, "V01: appended at the end");
                vp_assert(at(v) == x, "V01: appended element has the given value");
            }
        }
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

template <typename V, typename A, typename Op>
void resizing(bool has_value, Op op)
{
    gh::init();
    gh::limit = vp_nondet_size("limit");
    vp_assume(gh::limit <= (std::size_t(1) << 40));
    {
        V                   v(vp_nondet_size("max"), A(1));
        const View          p   = make(v, "cap", "n");
        const std::size_t   cap = v.capacity();
        const std::uint32_t x   = has_value ? vp_nondet_u32("x") : 0U;
        const std::size_t   m   = vp_nondet_size("m");
        gh::may_fail            = true;
        bool       length;
        const bool refused = refusable([&] { op(v, m, x); }, length);
        invariant(v);
        if (refused)
        {
            VP_COVER_X("refused");
            vp_assert(!length || m > v.max_size(), "V03: length error only above the maximum size");
            vp_assert(v.size() == p.n, "V03: refused resize leaves the size");
            vp_assert(v.capacity() == cap, "V03: refused resize leaves the capacity");
        }
        else if (exceptions || v.size() == m)
        {
            vp_cover("done");
            vp_assert(v.size() == m, "V01: resize sets the size");
            vp_assert(m <= v.max_size(), "V03: resize above the maximum is refused");
        }
        else
        {
            VP_COVER_N("clamped");
            vp_assert(m > v.max_size() || gh::failed, "V03: clamped only at the maximum or on allocation failure");
            vp_assert(v.size() == v.capacity(), "V03: clamped to the capacity");
            vp_assert(v.size() >= p.n, "V03: clamping loses no element");
            vp_assert(v.size() < m, "V03: clamping never exceeds the request");
        }
        if (gh::J < v.size())
        {
            if (gh::J < p.n)
            {
                vp_cover("kept");
                vp_assert(at(v) == p.val, "V01/V03: resize keeps the elements below both sizes");
            }
            else
            {
                vp_cover("new");
                vp_assert(at(v) == x, "V01: elements added by resize have the requested value");
            }
        }
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

template <typename V, typename A>
void assigning()
{
    using T = typename V::value_type;
    gh::init();
    gh::limit = vp_nondet_size("limit");
    vp_assume(gh::limit <= (std::size_t(1) << 40));
    {
        V                   v(vp_nondet_size("max"), A(1));
        const View          p = make(v, "cap", "n");
        const std::uint32_t x = vp_nondet_u32("x");
        const std::size_t   m = vp_nondet_size("m");
        const T             e(x);
        gh::may_fail = true;
        bool       length;
        const bool refused = refusable([&] { v.assign(m, e); }, length);
        invariant(v);
        if (refused)
        {
            VP_COVER_X("refused");
            vp_assert(!length || m > v.max_size(), "V03: length error only above the maximum size");
            vp_assert(v.size() == p.n, "V03: refused assign leaves the size");
            if (gh::J < p.n)
            {
                vp_assert(at(v) == p.val, "V03: refused assign keeps the elements");
            }
        }
        else
        {
            vp_cover("done");
            vp_assert(!exceptions || v.size() == m, "V01: assign sets the size");
            vp_assert(v.size() == m || gh::failed || m > v.max_size(), "V01/V03: clamped only for a reason");
            if (gh::J < v.size())
            {
                vp_assert(at(v) == x, "V01: every element has the assigned value");
            }
        }
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

template <typename V, typename A>
void capacity_ops()
{
    gh::init();
    gh::limit = vp_nondet_size("limit");
    vp_assume(gh::limit <= (std::size_t(1) << 40));
    {
        V                 v(vp_nondet_size("max"), A(1));
        const View        p   = make(v, "cap", "n");
        const std::size_t cap = v.capacity();
        gh::may_fail          = true;
        bool length           = false;
        switch (vp_choose(2, "op"))
        {
        case 0: {
            const std::size_t m       = vp_nondet_size("m");
            const bool        refused = refusable([&] { v.reserve(m); }, length);
            vp_assert(!length || m > v.max_size(), "V03: length error only above the maximum size");
            vp_assert(!exceptions || refused || v.capacity() >= m, "V01: reserve provides the capacity");
            vp_assert(refused || v.capacity() >= m || gh::failed || m > v.max_size(),
                      "V03: reserve falls short only for a reason");
            vp_assert(v.capacity() >= cap, "V01: reserve never shrinks");
            vp_assert(v.capacity() == cap || v.capacity() <= v.max_size(), "V03: capacity within maximum");
            vp_assert(!refused || v.capacity() == cap, "V03: refused reserve changes nothing");
            if (v.capacity() > cap)
            {
                vp_cover("reserved");
            }
            break;
        }
        default: {
            v.shrink_to_fit();
            vp_assert(gh::failed || v.capacity() == p.n, "V01: shrink_to_fit drops the excess");
            vp_assert(!gh::failed || v.capacity() == cap, "V03: failed shrink_to_fit changes nothing");
            if (cap > v.capacity())
            {
                vp_cover("shrunk");
            }
            break;
        }
        }
        invariant(v);
        vp_assert(v.size() == p.n, "V01/V03: capacity changes leave the size");
        if (gh::J < p.n)
        {
            vp_assert(at(v) == p.val, "V01/V03: capacity changes keep the elements");
        }
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

template <typename V, typename A>
void removing()
{
    using T = typename V::value_type;
    gh::init();
    {
        V                 v(vp_nondet_size("max"), A(1));
        const View        p   = make(v, "cap", "n");
        const std::size_t cap = v.capacity();
        std::size_t       n   = p.n;
        switch (vp_choose(3, "op"))
        {
        case 0:
            v.pop_back();
            n = (n > 0) ? n - 1 : 0;
            vp_cover("pop_back");
            break;
        case 1:
            v.clear();
            n = 0;
            vp_cover("clear");
            break;
        default: {
            const std::uint32_t y = vp_nondet_u32("y");
            const std::size_t   i = vp_nondet_size("i");
            vp_assume(i < n);
            v[i]               = T(y);
            const V&      cv   = v;
            vp_assert(&cv[i] == v.data() + i, "V01: operator[] denotes the element at its index");
            vp_assert(&v.front() == v.data(), "V01: front is the first element");
            vp_assert(&cv.front() == v.data(), "V01: front is the first element");
            vp_assert(&v.back() == v.data() + (n - 1), "V01: back is the last element");
            vp_assert(&cv.back() == v.data() + (n - 1), "V01: back is the last element");
            if (i == gh::J)
            {
                vp_cover("written");
                vp_assert(at(v) == y, "V01: writing through operator[] stores the value");
            }
            else if (gh::J < n)
            {
                vp_assert(at(v) == p.val, "V01: writing one element keeps the others");
            }
            n = 0;  // the watched value has been checked above
            vp_assert(v.size() == p.n, "V01: element access leaves the size");
            break;
        }
        }
        invariant(v);
        if (n != 0 || v.size() == 0)
        {
            vp_assert(v.size() == n, "V01: size after removal");
        }
        vp_assert(v.capacity() == cap, "V01: removal keeps the capacity");
        if (gh::J < n)
        {
            vp_assert(at(v) == p.val, "V01: removal keeps the other elements");
        }
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

#if defined(__cpp_exceptions)
template <typename V, typename A>
void checked_access()
{
    gh::init();
    {
        V                 v(vp_nondet_size("max"), A(1));
        const View        p  = make(v, "cap", "n");
        const std::size_t i  = vp_nondet_size("i");
        const V&          cv = v;
        bool              ok = true;
        try
        {
            vp_assert(&v.at(i) == v.data() + i, "V01: at() denotes the element at its index");
        } catch (const std::out_of_range&)
        {
            ok = false;
        }
        vp_assert(ok == (i < p.n), "V01: at() refuses exactly the indices at or beyond the size");
        ok = true;
        try
        {
            vp_assert(&cv.at(i) == v.data() + i, "V01: at() denotes the element at its index");
        } catch (const std::out_of_range&)
        {
            ok = false;
            vp_cover("refused");
        }
        vp_assert(ok == (i < p.n), "V01: at() refuses exactly the indices at or beyond the size");
        invariant(v);
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}
#endif

template <typename V, typename A>
void from_range()
{
    using T = typename V::value_type;
    gh::init();
    {
        V          src(A(2));
        const View p = make(src, "cap", "n");
        vp_assume(p.n > 0);
        const std::size_t a = vp_nondet_size("a");
        const std::size_t b = vp_nondet_size("b");
        vp_assume(a == 0 && a <= b && b <= p.n);
        gh::may_fail                 = true;
        gh::limit                    = vp_nondet_size("limit");
        const std::size_t max        = vp_nondet_size("max");
        bool              length     = false;
        bool              built      = false;
        const unsigned    before     = gh::live_blocks;
        const bool        refused    = refusable(
            [&] {
                V v(src.data() + a, src.data() + b, max, A(1));
                built = true;
                invariant(v);
                vp_assert(v.max_size() <= max, "V03: the maximum is the one given");
                vp_assert(!exceptions || v.size() == b - a, "V01: range construction copies the range");
                vp_assert(v.size() == b - a || gh::failed || b - a > v.max_size(), "V03: clamped only for a reason");
                vp_assert(v.size() <= b - a, "V01: range construction copies no more than the range");
                if (gh::J < v.size())
                {
                    vp_cover("copied");
                    vp_assert(at(v) == p.val, "V01: range construction copies the values in order");
                    vp_assert(at(src) == p.val, "V01: range construction leaves the source");
                }
            },
            length);
        vp_assert(refused == !built, "V03: refused or built");
        vp_assert(gh::live_blocks == before, "V02: nothing stays allocated");
        gh::limit = std::size_t(1) << 40;
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

template <typename V, typename A>
void from_list()
{
    using T = typename V::value_type;
    gh::init();
    const std::uint32_t x0 = vp_nondet_u32("x0"), x1 = vp_nondet_u32("x1"), x2 = vp_nondet_u32("x2");
    gh::may_fail        = true;
    gh::limit           = vp_nondet_size("limit");
    const std::size_t max = vp_nondet_size("max");
    bool length = false, built = false;
    const bool refused = refusable(
        [&] {
            V v({T(x0), T(x1), T(x2)}, max, A(1));
            built = true;
            invariant(v);
            vp_assert(!exceptions || v.size() == 3, "V01: list construction copies the list");
            vp_assert(v.size() == 3 || gh::failed || v.max_size() < 3, "V03: clamped only for a reason");
            if (gh::J < v.size())
            {
                vp_cover("copied");
                vp_assert(gh::J < 3, "V01: list construction copies no more than the list");
                vp_assert(at(v) == (gh::J == 0 ? x0 : (gh::J == 1 ? x1 : x2)),
                          "V01: list construction copies the values in order");
            }
        },
        length);
    vp_assert(refused == !built, "V03: refused or built");
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

template <typename V, typename A>
void equality()
{
    gh::init();
    {
        V          a(A(1));
        V          b(A(2));
        const View p = make(a, "cap_a", "n_a");
        const View q = make(b, "cap_b", "n_b");
        gh::eq_false = false;
        const bool r = (a == b);
        if (r)
        {
            vp_cover("equal");
            vp_assert(p.n == q.n, "V01: equal arrays have equal sizes");
            vp_assert(gh::J >= p.n || p.val == q.val, "V01: equal arrays have equal elements");
        }
        else
        {
            vp_cover("different");
            vp_assert(p.n != q.n || gh::eq_false, "V01: arrays compare different only if some element differs");
        }
        invariant(a);
        invariant(b);
        vp_assert(a == a, "V01: an array equals itself");
        vp_assert(!(a != a), "V01: an array equals itself");
    }
    vp_assert(gh::live_blocks == 0, "V02: nothing stays allocated");
}

}  // namespace

VP_CONTRACT(c_vla_push_back) // V01 V02 V03
{
    append<VE, AE>([](VE& v, std::uint32_t x) { const Elem e(x); v.push_back(e); });
}
VP_CONTRACT(c_vla_push_back_move) // V01 V02 V03
{
    append<VE, AE>([](VE& v, std::uint32_t x) { v.push_back(Elem(x)); });
}
VP_CONTRACT(c_vla_emplace_back) // V01 V02 V03
{
    append<VE, AE>([](VE& v, std::uint32_t x) { v.emplace_back(x); });
}
VP_CONTRACT(c_vla_push_back_u32) // V01 V02 V03
{
    append<VU, AU>([](VU& v, std::uint32_t x) { v.push_back(x); });
}
VP_CONTRACT(c_vla_resize) // V01 V02 V03
{
    resizing<VE, AE>(false, [](VE& v, std::size_t m, std::uint32_t) { v.resize(m); });
}
VP_CONTRACT(c_vla_resize_value) // V01 V02 V03
{
    resizing<VE, AE>(true, [](VE& v, std::size_t m, std::uint32_t x) { const Elem e(x); v.resize(m, e); });
}
VP_CONTRACT(c_vla_resize_u32) // V01 V02 V03
{
    resizing<VU, AU>(true, [](VU& v, std::size_t m, std::uint32_t x) { v.resize(m, x); });
}
VP_CONTRACT(c_vla_assign) // V01 V02 V03
{
    assigning<VE, AE>();
}
VP_CONTRACT(c_vla_assign_u32) // V01 V02 V03
{
    assigning<VU, AU>();
}
VP_CONTRACT(c_vla_capacity) // V01 V02 V03
{
    capacity_ops<VE, AE>();
}
VP_CONTRACT(c_vla_capacity_u32) // V01 V02 V03
{
    capacity_ops<VU, AU>();
}
VP_CONTRACT(c_vla_remove) // V01 V02
{
    removing<VE, AE>();
}
VP_CONTRACT(c_vla_remove_u32) // V01 V02
{
    removing<VU, AU>();
}
#if defined(__cpp_exceptions)
VP_CONTRACT(c_vla_at) // V01 V02 configs=14x
{
    checked_access<VE, AE>();
}
#endif
VP_CONTRACT(c_vla_range) // V01 V02 V03
{
    from_range<VE, AE>();
}
VP_CONTRACT(c_vla_range_u32) // V01 V02 V03
{
    from_range<VU, AU>();
}
VP_CONTRACT(c_vla_list) // V01 V02 V03
{
    from_list<VE, AE>();
}
VP_CONTRACT(c_vla_equal) // V01 V02
{
    equality<VE, AE>();
}
