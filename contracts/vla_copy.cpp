// Contracts of VariableLengthArray<T>: copying and moving whole arrays, for every combination of allocator traits.
// VP-CONFIGS: 14x 14n
#include "vla.hpp"

namespace
{

template <bool C, bool M, bool E>
struct Types
{
    using A = gh::Alloc<Elem, C, M, E>;
    using V = cetl::VariableLengthArray<Elem, A>;

    static unsigned id(const V& v) { return v.get_allocator().id; }
    static A        any(const char* name) { return A(vp_nondet_bool(name) ? 1U : 2U); }
};
struct TypesU
{
    using A = gh::Alloc<std::uint32_t, false, false, false>;
    using V = cetl::VariableLengthArray<std::uint32_t, A>;

    static unsigned id(const V& v) { return v.get_allocator().id; }
    static A        any(const char* name) { return A(vp_nondet_bool(name) ? 1U : 2U); }
};

template <typename V>
void unchanged(const V& v, const View& p)
{
    vp_assert(v.size() == p.n, "V04: the source of a copy keeps its size");
    if (gh::J < p.n)
    {
        vp_assert(at(v) == p.val, "V04: the source of a copy keeps its elements");
    }
}

template <typename V>
void holds(const V& v, const View& p)
{
    vp_assert(v.size() == p.n || (!exceptions && gh::failed), "V04: the destination has the source's size");
    if (gh::J < v.size())
    {
        vp_cover("element");
        vp_assert(gh::J < p.n, "V04: the destination has no more elements than the source");
        vp_assert(at(v) == p.val, "V04: the destination has the source's elements");
    }
}

template <typename V>
void given_away(V& v)
{
    using T = typename V::value_type;
    vp_assert(v.size() == 0, "V04: a moved-from array is empty");
    invariant(v);
    gh::may_fail = false;
    if (v.max_size() > 0)
    {
        v.push_back(T(7U));
        vp_assert(v.size() == 1U, "V04: a moved-from array is reusable");
        invariant(v);
    }
}

template <typename Y>
void copy_construct()
{
    using V = typename Y::V;
    using A = typename Y::A;
    gh::init();
    {
        V          src(vp_nondet_size("max"), A(1));
        const View p = make(src, "cap", "n");
        gh::may_fail = true;
        bool built = false, length = false;
        const bool other   = vp_nondet_bool("with_alloc");
        const bool refused = refusable(
            [&] {
                if (other)
                {
                    V d(src, A(2));
                    built = true;
                    invariant(d);
                    vp_assert(Y::id(d) == 2U, "V04: the copy uses the given allocator");
                    vp_assert(d.max_size() == src.max_size(), "V04: the copy has the source's maximum");
                    vp_assert(d.size() == 0 || d.data() != src.data(), "V04: the copy has storage of its own");
                    holds(d, p);
                }
                else
                {
                    V d(src);
                    built = true;
                    invariant(d);
                    vp_assert(Y::id(d) == 1U, "V04: the copy uses the source's allocator");
                    vp_assert(d.max_size() == src.max_size(), "V04: the copy has the source's maximum");
                    vp_assert(d.size() == 0 || d.data() != src.data(), "V04: the copy has storage of its own");
                    holds(d, p);
                }
            },
            length);
        vp_assert(!length, "V03/V04: copying an array is never too long");
        vp_assert(refused == !built, "V04: built or refused");
        unchanged(src, p);
        invariant(src);
    }
    vp_assert(gh::live_blocks == 0, "V02/V04: nothing stays allocated");
}

template <typename Y>
void copy_assign(bool pocca)
{
    using V = typename Y::V;
    using A = typename Y::A;
    gh::init();
    {
        V              src(vp_nondet_size("max_src"), A(1));
        const View     p = make(src, "cap_src", "n_src");
        V              dst(vp_nondet_size("max_dst"), Y::any("same_alloc"));
        const unsigned was = Y::id(dst);
        (void) make(dst, "cap_dst", "n_dst");
        gh::may_fail = true;
        bool       length;
        const bool refused = refusable([&] { dst = src; }, length);
        invariant(dst);
        invariant(src);
        unchanged(src, p);
        vp_assert(!length, "V03/V04: copying an array is never too long");
        if (refused)
        {
            VP_COVER_X("refused");
        }
        else
        {
            vp_assert(dst.size() == 0 || dst.data() != src.data(), "V04: the copy has storage of its own");
            vp_assert(dst.max_size() == src.max_size(), "V04: the copy has the source's maximum");
            vp_assert(Y::id(dst) == (pocca ? 1U : was), "V04: the allocator follows its copy trait");
            holds(dst, p);
        }
    }
    vp_assert(gh::live_blocks == 0, "V02/V04: nothing stays allocated");
}

template <typename Y>
void move_construct()
{
    using V = typename Y::V;
    using A = typename Y::A;
    gh::init();
    {
        V          src(vp_nondet_size("max"), A(1));
        const View p     = make(src, "cap", "n");
        const auto max   = src.max_size();
        const bool other = vp_nondet_bool("with_alloc");
        gh::may_fail     = !exceptions;
        if (other)
        {
            A              a = Y::any("same_alloc");
            const unsigned i = a.id;
            V              d(std::move(src), a);
            invariant(d);
            holds(d, p);
            vp_assert(Y::id(d) == i, "V04: the new array uses the given allocator");
            vp_assert(d.max_size() == max, "V04: the new array has the source's maximum");
            given_away(src);
        }
        else
        {
            V d(std::move(src));
            invariant(d);
            vp_assert(d.size() == p.n, "V04: the destination has the source's size");
            holds(d, p);
            vp_assert(Y::id(d) == 1U, "V04: the new array uses the source's allocator");
            vp_assert(d.max_size() == max, "V04: the new array has the source's maximum");
            given_away(src);
        }
    }
    vp_assert(gh::live_blocks == 0, "V02/V04: nothing stays allocated");
}

template <typename Y>
void move_assign(bool pocma)
{
    using V = typename Y::V;
    using A = typename Y::A;
    gh::init();
    {
        V              src(vp_nondet_size("max_src"), A(1));
        const View     p   = make(src, "cap_src", "n_src");
        const auto     max = src.max_size();
        V              dst(vp_nondet_size("max_dst"), Y::any("same_alloc"));
        const unsigned was = Y::id(dst);
        (void) make(dst, "cap_dst", "n_dst");
        gh::may_fail = true;
        bool       length;
        const bool refused = refusable([&] { dst = std::move(src); }, length);
        invariant(dst);
        vp_assert(!length, "V03/V04: moving an array is never too long");
        if (refused)
        {
            unchanged(src, p);
            invariant(src);
        }
        else
        {
            vp_assert(dst.max_size() == max, "V04: the destination has the source's maximum");
            vp_assert(Y::id(dst) == (pocma ? 1U : was), "V04: the allocator follows its move trait");
            holds(dst, p);
            given_away(src);
        }
    }
    vp_assert(gh::live_blocks == 0, "V02/V04: nothing stays allocated");
}

template <typename Y>
void self_assign()
{
    using V = typename Y::V;
    using A = typename Y::A;
    gh::init();
    {
        V          v(vp_nondet_size("max"), A(1));
        const View p = make(v, "cap", "n");
        V&         w = v;
        if (vp_nondet_bool("copy"))
        {
            v = w;
        }
        else
        {
            v = std::move(w);
        }
        invariant(v);
        vp_assert(v.size() == p.n, "V04: self-assignment keeps the size");
        if (gh::J < p.n)
        {
            vp_assert(at(v) == p.val, "V04: self-assignment keeps the elements");
        }
    }
    vp_assert(gh::live_blocks == 0, "V02/V04: nothing stays allocated");
}

}  // namespace

VP_CONTRACT(c_vla_copy_construct) // V04 V02 V03
{
    copy_construct<Types<false, false, false>>();
}
VP_CONTRACT(c_vla_copy_construct_u32) // V04 V02 V03
{
    copy_construct<TypesU>();
}
VP_CONTRACT(c_vla_copy_assign) // V04 V02 V03
{
    copy_assign<Types<false, false, false>>(false);
}
VP_CONTRACT(c_vla_copy_assign_pocca) // V04 V02 V03
{
    copy_assign<Types<true, false, false>>(true);
}
VP_CONTRACT(c_vla_copy_assign_u32) // V04 V02 V03
{
    copy_assign<TypesU>(false);
}
VP_CONTRACT(c_vla_move_construct) // V04 V02
{
    move_construct<Types<false, false, false>>();
}
VP_CONTRACT(c_vla_move_construct_pocma) // V04 V02
{
    move_construct<Types<false, true, false>>();
}
VP_CONTRACT(c_vla_move_construct_equal) // V04 V02
{
    move_construct<Types<false, false, true>>();
}
VP_CONTRACT(c_vla_move_assign) // V04 V02 V03
{
    move_assign<Types<false, false, false>>(false);
}
VP_CONTRACT(c_vla_move_assign_pocma) // V04 V02 V03
{
    move_assign<Types<false, true, false>>(true);
}
VP_CONTRACT(c_vla_move_assign_equal) // V04 V02
{
    move_assign<Types<false, false, true>>(false);
}
VP_CONTRACT(c_vla_move_assign_u32) // V04 V02 V03
{
    move_assign<TypesU>(false);
}
VP_CONTRACT(c_vla_self_assign) // V04 V02
{
    self_assign<Types<false, false, false>>();
}
