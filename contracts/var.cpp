// Contracts of the variant.
// VP-CONFIGS: 14x 14n 20x
#include "val.hpp"

#include "cetl/pf17/variant.hpp"
#include "cetl/visit_helpers.hpp"

namespace
{

using cetl::pf17::get;
using cetl::pf17::get_if;
using cetl::pf17::holds_alternative;
using cetl::pf17::in_place_index;
using cetl::pf17::in_place_type;
using cetl::pf17::variant;
using cetl::pf17::variant_npos;
using cetl::pf17::visit;

using B = vv::Val<1>;           // copying and moving may throw
using S = vv::Val<2, 8, true>;  // copying may throw
using W = variant<B, S, std::uint32_t>;

struct State
{
    std::size_t   ix;
    std::uint32_t v;
};

std::uint32_t rd(const std::uint32_t& t) { return t; }
template <typename T>
std::uint32_t rd(const T& t)
{
    vp_assert(t.me == &t, "A01: the alternative named by the index is alive");
    return t.v;
}

#if defined(__cpp_exceptions)
#    define TRY try
#    define CATCH(x)                                                   \
        catch (int)                                                    \
        {                                                              \
            VP_COVER_X("throws");                                      \
            vp_assert(vv::thrown, "A01: only value operations throw"); \
            x;                                                         \
        }
#else
#    define TRY
#    define CATCH(x)
#endif

// an arbitrary state
void enter(W& w, State& s, const char* ix, const char* v)
{
    s.ix = vp_choose(exceptions ? 4 : 3, ix);
    s.v  = vp_nondet_u32(v);
    vp_assume(s.v != vv::MOVED);
    switch (s.ix)
    {
    case 0: w.emplace<0>(s.v); break;
    case 1: w.emplace<1>(s.v); break;
    case 2: w.emplace<2>(s.v); break;
    default:
#if defined(__cpp_exceptions)
        s.ix = variant_npos;
        try
        {
            w.emplace<0>(vv::Bomb{});
        }
        catch (int)
        {
        }
#endif
        break;
    }
}

// consistent; the value
std::uint32_t value(const W& w)
{
    vp_assert(w.index() < 3 || w.index() == variant_npos, "A01: the index names an alternative");
    vp_assert(w.valueless_by_exception() == (w.index() == variant_npos), "A01: valueless exactly when no alternative is named");
    switch (w.index())
    {
    case 0: return rd(*get_if<0>(&w));
    case 1: return rd(*get_if<1>(&w));
    case 2: return rd(*get_if<2>(&w));
    default: return 0;
    }
}

unsigned held(const W& w)
{
    value(w);
    return w.index() < 2 ? 1 : 0;
}

void is(const W& w, const State& s)
{
    vp_assert(w.index() == s.ix, "A01: holds the prescribed alternative");
    const std::uint32_t v = value(w);
    vp_assert(s.ix == variant_npos || v == s.v, "A01: holds the prescribed value");
}

void all(const W& a, const W& b)
{
    const unsigned n = held(a) + held(b);
    vp_assert(vv::live == n, "A01: exactly the alternatives named by the variants are alive");
}
void gone()
{
    vp_assert(vv::live == 0, "A01: every alternative is destroyed");
}

}  // namespace

VP_CONTRACT(c_var_construct) // A01
{
    vv::init();
    const std::uint32_t x = vp_nondet_u32("x");
    const std::uint32_t y = vp_nondet_u32("y");
    vp_assume(x != vv::MOVED && x + y != vv::MOVED);
    vv::may_throw = true;
    TRY
    {
        variant<std::uint32_t, B> z;
        vp_assert(z.index() == 0 && get<0>(z) == 0, "A01: starts with the first alternative");
        W a(in_place_index<0>, x);
        is(a, State{0, x});
        W b(in_place_index<1>, x, y);
        is(b, State{1, x + y});
        W c(in_place_type<S>, x);
        is(c, State{1, x});
        W d(x);
        is(d, State{2, x});
        vp_assert(vv::live == 3, "A01: exactly the alternatives named by the variants are alive");
        vp_cover("all");
        const B v(y);
        W       e(v);
        is(e, State{0, y});
        W f(S{y});
        is(f, State{1, y});
        vp_assert(vv::live == 6, "A01: exactly the alternatives named by the variants are alive");
    }
    CATCH()
    gone();
}
VP_CONTRACT(c_var_copy_construct) // A01
{
    vv::init();
    {
        W     b(in_place_index<2>, 0U);
        State sb;
        enter(b, sb, "b_ix", "b");
        const W& cb   = b;
        vv::may_throw = true;
        TRY
        {
            W a(cb);
            vv::may_throw = false;
            is(a, sb);
            all(a, b);
        }
        CATCH()
        vv::may_throw = false;
        is(b, sb);
        vp_assert(vv::live == held(b), "A01: exactly the alternatives named by the variants are alive");
    }
    gone();
}
VP_CONTRACT(c_var_move_construct) // A01
{
    vv::init();
    {
        W     b(in_place_index<2>, 0U);
        State sb;
        enter(b, sb, "b_ix", "b");
        vv::may_throw = true;
        TRY
        {
            W a(std::move(b));
            vv::may_throw = false;
            is(a, sb);
            all(a, b);
        }
        CATCH()
        vv::may_throw = false;
        vp_assert(b.index() == sb.ix, "A01: the source keeps its alternative");
        vp_assert(vv::live == held(b), "A01: exactly the alternatives named by the variants are alive");
    }
    gone();
}
VP_CONTRACT(c_var_copy_assign) // A01
{
    vv::init();
    {
        W     a(in_place_index<2>, 0U);
        W     b(in_place_index<2>, 0U);
        State sa;
        State sb;
        enter(a, sa, "a_ix", "a");
        enter(b, sb, "b_ix", "b");
        const W& cb   = b;
        vv::may_throw = true;
        bool ok       = false;
        TRY
        {
            vp_assert(&(a = cb) == &a, "A01: assignment returns the variant");
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            is(a, sb);
        }
        else if (sb.ix == 0 && sa.ix != 0)
        {
            VP_COVER_X("valueless");
            is(a, State{variant_npos, 0});
        }
        else
        {
            // assigned in place, or copied aside
            VP_COVER_X("unchanged");
            is(a, sa);
        }
        is(b, sb);
        all(a, b);
    }
    gone();
}
VP_CONTRACT(c_var_move_assign) // A01
{
    vv::init();
    {
        W     a(in_place_index<2>, 0U);
        W     b(in_place_index<2>, 0U);
        State sa;
        State sb;
        enter(a, sa, "a_ix", "a");
        enter(b, sb, "b_ix", "b");
        vv::may_throw = true;
        bool ok       = false;
        TRY
        {
            vp_assert(&(a = std::move(b)) == &a, "A01: assignment returns the variant");
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            is(a, sb);
            vp_assert(b.index() == sb.ix, "A01: the source keeps its alternative");
        }
        else
        {
            vp_assert(sb.ix == 0, "A01: only a throwing move fails the assignment");
            is(a, sa.ix == 0 ? sa : State{variant_npos, 0});
            is(b, sb);
        }
        all(a, b);
    }
    gone();
}
VP_CONTRACT(c_var_swap) // A01
{
    vv::init();
    {
        W     a(in_place_index<2>, 0U);
        W     b(in_place_index<2>, 0U);
        State sa;
        State sb;
        enter(a, sa, "a_ix", "a");
        enter(b, sb, "b_ix", "b");
        vv::may_throw = true;
        bool ok       = false;
        TRY
        {
            a.swap(b);
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            is(a, sb);
            is(b, sa);
        }
        else
        {
            vp_assert(a.index() == sa.ix || a.index() == sb.ix || a.valueless_by_exception(), "A01: a failed swap gives no other alternative");
            vp_assert(b.index() == sa.ix || b.index() == sb.ix || b.valueless_by_exception(), "A01: a failed swap gives no other alternative");
            vp_assert(sa.ix != sb.ix || (a.index() == sa.ix && b.index() == sb.ix), "A01: a failed swap of values keeps the alternatives");
        }
        all(a, b);
    }
    gone();
}
VP_CONTRACT(c_var_self) // A01
{
    vv::init();
    {
        W     a(in_place_index<2>, 0U);
        W&    self = a;
        State sa;
        enter(a, sa, "a_ix", "a");
        const bool copying = vp_nondet_bool("copying");
        vv::may_throw      = true;
        TRY
        {
            if (copying)
            {
                a = static_cast<const W&>(self);
            }
            else
            {
                a.swap(self);
            }
        }
        CATCH()
        vv::may_throw = false;
        vp_assert(a.index() == sa.ix && vv::live == held(a), "A01: holds the prescribed alternative");
        if (copying)
        {
            is(a, sa);
        }
    }
    gone();
}
VP_CONTRACT(c_var_emplace) // A01
{
    vv::init();
    {
        W                   a(in_place_index<2>, 0U);
        State               sa;
        const std::uint32_t x = vp_nondet_u32("x");
        const std::uint32_t y = vp_nondet_u32("y");
        vp_assume(x != vv::MOVED && x + y != vv::MOVED);
        enter(a, sa, "a_ix", "a");
        vv::may_throw = true;
        TRY
        {
            switch (vp_choose(4, "op"))
            {
            case 0:
            {
                sa     = State{variant_npos, 0};
                B& ref = a.emplace<0>(x);
                sa     = State{0, x};
                vp_assert(&ref == get_if<0>(&a), "A01: emplace returns the alternative");
                break;
            }
            case 1:
            {
                sa     = State{variant_npos, 0};
                S& ref = a.emplace<1>(x, y);
                sa     = State{1, x + y};
                vp_assert(&ref == get_if<1>(&a), "A01: emplace returns the alternative");
                break;
            }
            case 2:
            {
                sa     = State{variant_npos, 0};
                S& ref = a.emplace<S>(x);
                sa     = State{1, x};
                vp_assert(&ref == get_if<1>(&a), "A01: emplace returns the alternative");
                break;
            }
            default:
            {
                std::uint32_t& ref = a.emplace<std::uint32_t>(x);
                sa                 = State{2, x};
                vp_assert(&ref == get_if<2>(&a), "A01: emplace returns the alternative");
                break;
            }
            }
        }
        CATCH()
        vv::may_throw = false;
        is(a, sa);
        vp_assert(vv::live == held(a), "A01: exactly the alternatives named by the variants are alive");
    }
    gone();
}
VP_CONTRACT(c_var_convert_assign) // A01
{
    vv::init();
    {
        W                   a(in_place_index<2>, 0U);
        State               sa;
        const std::uint32_t x = vp_nondet_u32("x");
        vp_assume(x != vv::MOVED);
        enter(a, sa, "a_ix", "a");
        B          vb(x);
        S          vs(x);
        const unsigned op   = vp_choose(5, "op");
        bool       ok       = false;
        vv::may_throw       = true;
        TRY
        {
            switch (op)
            {
            case 0: a = static_cast<const B&>(vb); break;
            case 1: a = std::move(vb); break;
            case 2: a = static_cast<const S&>(vs); break;
            case 3: a = std::move(vs); break;
            default: a = x; break;
            }
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            is(a, State{op / 2U, x});
        }
        else
        {
            vp_assert(op < 3, "A01: only a throwing value operation fails the assignment");
            is(a, op < 2 && sa.ix != 0 ? State{variant_npos, 0} : sa);
        }
        vp_assert(vv::live == 2 + held(a), "A01: exactly the alternatives named by the variants are alive");
    }
    gone();
}

namespace
{

// trivially constructible from its like, but not trivially assignable
struct Assigned
{
    std::uint32_t v;
    std::uint32_t to;
    explicit Assigned(std::uint32_t x)
        : v(x)
        , to(0)
    {
    }
    Assigned(const Assigned&) = default;
    Assigned(Assigned&&)      = default;
    Assigned& operator=(const Assigned& o)
    {
        v = o.v;
        ++to;
        return *this;
    }
    Assigned& operator=(Assigned&& o)
    {
        v = o.v;
        ++to;
        return *this;
    }
};
// trivially assignable, but not trivially constructible from its like
struct Copied
{
    std::uint64_t v;
    std::uint32_t from;
    explicit Copied(std::uint32_t x)
        : v(x)
        , from(0)
    {
    }
    Copied(const Copied& o)
        : v(o.v)
        , from(o.from + 1)
    {
    }
    Copied(Copied&& o)
        : v(o.v)
        , from(o.from + 1)
    {
    }
    Copied& operator=(const Copied&) = default;
    Copied& operator=(Copied&&)      = default;
};

template <typename Y>
void enter2(Y& w, State& s, const char* ix, const char* v)
{
    s.ix = vp_nondet_bool(ix) ? 1 : 0;
    s.v  = vp_nondet_u32(v);
    if (s.ix == 0)
    {
        w.template emplace<0>(s.v);
    }
    else
    {
        w.template emplace<1>(s.v);
    }
}
std::uint64_t rd2(const std::uint32_t& x) { return x; }
std::uint64_t rd2(const std::uint64_t& x) { return x; }
template <typename T>
std::uint64_t rd2(const T& x) { return x.v; }
template <typename Y>
void is2(const Y& w, const State& s)
{
    vp_assert(w.index() == s.ix, "A01: holds the prescribed alternative");
    if (s.ix == 0)
    {
        vp_assert(rd2(*get_if<0>(&w)) == s.v, "A01: holds the prescribed value");
    }
    else
    {
        vp_assert(rd2(*get_if<1>(&w)) == s.v, "A01: holds the prescribed value");
    }
}
template <typename Y>
void trivially()
{
    Y     a(in_place_index<0>, 0U);
    Y     b(in_place_index<0>, 0U);
    State sa;
    State sb;
    enter2(a, sa, "a_ix", "a");
    enter2(b, sb, "b_ix", "b");
    Y c(static_cast<const Y&>(b));
    is2(c, sb);
    Y d(std::move(c));
    is2(d, sb);
    switch (vp_choose(3, "op"))
    {
    case 0: a = static_cast<const Y&>(b); break;
    case 1: a = std::move(b); break;
    default:
        a.swap(b);
        is2(b, sa);
        break;
    }
    is2(a, sb);
}

}  // namespace

VP_CONTRACT(c_var_trivial) // A01
{
    trivially<variant<std::uint32_t, std::uint64_t>>();
}
VP_CONTRACT(c_var_assigned) // A01
{
    trivially<variant<Assigned, std::uint64_t>>();
}
VP_CONTRACT(c_var_copied) // A01
{
    trivially<variant<std::uint64_t, Copied>>();
}
VP_CONTRACT(c_var_which_operation) // A01
{
    // the alternative's assignment is used exactly when both hold it, its construction otherwise
    using Y = variant<Assigned, Copied>;
    Y     a(in_place_index<0>, 0U);
    Y     b(in_place_index<0>, 0U);
    State sa;
    State sb;
    enter2(a, sa, "a_ix", "a");
    enter2(b, sb, "b_ix", "b");
    if (vp_nondet_bool("move"))
    {
        a = std::move(b);
    }
    else
    {
        a = static_cast<const Y&>(b);
    }
    is2(a, sb);
    if (sb.ix == 0)
    {
        vp_assert(get_if<0>(&a)->to == (sa.ix == 0 ? 1 : 0), "A01: assigned exactly when both hold the alternative");
    }
    else
    {
        vp_assert((get_if<1>(&a)->from == 0) == (sa.ix == 1), "A01: constructed exactly when the alternatives differ");
    }
}

// ------------------------------------------------------------------------------------------------ access
VP_CONTRACT(c_var_access) // A02
{
    vv::init();
    {
        W     a(in_place_index<2>, 0U);
        State sa;
        enter(a, sa, "a_ix", "a");
        const W& ca = a;
        vp_assert((get_if<0>(&a) != nullptr) == (sa.ix == 0), "A02: access succeeds exactly for the live alternative");
        vp_assert((get_if<1>(&a) != nullptr) == (sa.ix == 1), "A02: access succeeds exactly for the live alternative");
        vp_assert((get_if<2>(&a) != nullptr) == (sa.ix == 2), "A02: access succeeds exactly for the live alternative");
        vp_assert(get_if<0>(&a) == get_if<0>(&ca) && get_if<0>(&a) == get_if<B>(&a) && get_if<0>(&a) == get_if<B>(&ca), "A02: access gives the live alternative");
        vp_assert(get_if<1>(&a) == get_if<1>(&ca) && get_if<1>(&a) == get_if<S>(&a) && get_if<1>(&a) == get_if<S>(&ca), "A02: access gives the live alternative");
        vp_assert(get_if<2>(&a) == get_if<2>(&ca) && get_if<2>(&a) == get_if<std::uint32_t>(&a) && get_if<2>(&a) == get_if<std::uint32_t>(&ca), "A02: access gives the live alternative");
        vp_assert(get_if<0>(static_cast<W*>(nullptr)) == nullptr && get_if<S>(static_cast<const W*>(nullptr)) == nullptr, "A02: nothing is in no variant");
        vp_assert(holds_alternative<B>(a) == (sa.ix == 0) && holds_alternative<S>(a) == (sa.ix == 1) && holds_alternative<std::uint32_t>(a) == (sa.ix == 2),
                  "A02: access succeeds exactly for the live alternative");
        switch (sa.ix)
        {
        case 0:
        {
            B&&       r = get<0>(std::move(a));
            const B&& q = get<0>(std::move(ca));
            vp_assert(&get<0>(a) == get_if<0>(&a) && &get<0>(ca) == get_if<0>(&a) && &r == get_if<0>(&a) && &q == get_if<0>(&a), "A02: access gives the live alternative");
            vp_assert(get<B>(a).read() == sa.v && get<B>(ca).read() == sa.v, "A02: access gives the live alternative");
            break;
        }
        case 1:
        {
            S&&       r = get<S>(std::move(a));
            const S&& q = get<S>(std::move(ca));
            vp_assert(&get<1>(a) == get_if<1>(&a) && &get<1>(ca) == get_if<1>(&a) && &r == get_if<1>(&a) && &q == get_if<1>(&a), "A02: access gives the live alternative");
            vp_assert(get<S>(a).read() == sa.v && get<S>(ca).read() == sa.v, "A02: access gives the live alternative");
            break;
        }
        case 2: vp_assert(get<2>(a) == sa.v && get<2>(ca) == sa.v && get<std::uint32_t>(a) == sa.v, "A02: access gives the live alternative"); break;
        default: break;
        }
#if defined(__cpp_exceptions)
        unsigned bad = 0;
        try { (void) get<0>(a); } catch (const cetl::pf17::bad_variant_access&) { ++bad; }
        try { (void) get<1>(ca); } catch (const cetl::pf17::bad_variant_access&) { ++bad; }
        try { (void) get<2>(std::move(a)); } catch (const cetl::pf17::bad_variant_access&) { ++bad; }
        vp_assert(bad == (sa.ix == variant_npos ? 3 : 2), "A02: other access is refused");
        bad = 0;
        try { (void) get<B>(std::move(ca)); } catch (const cetl::pf17::bad_variant_access&) { ++bad; }
        try { (void) get<S>(a); } catch (const cetl::pf17::bad_variant_access&) { ++bad; }
        try { (void) get<std::uint32_t>(ca); } catch (const cetl::pf17::bad_variant_access&) { ++bad; }
        vp_assert(bad == (sa.ix == variant_npos ? 3 : 2), "A02: other access is refused");
#endif
        is(a, sa);
    }
    vp_assert(vv::live == 0, "A02: access leaves no value behind");
}

namespace
{

struct Seen
{
    unsigned      calls;
    std::size_t   ix[3];
    const void*   at[3];
    bool          rvalue[3];
    bool          constant[3];
    std::uint32_t answer;
};

std::size_t which(const B&) { return 0; }
std::size_t which(const S&) { return 1; }
std::size_t which(const std::uint32_t&) { return 2; }

struct Visitor
{
    Seen* seen;

    template <typename T>
    void one(unsigned i, T&& x) const
    {
        seen->ix[i]       = which(x);
        seen->at[i]       = &x;
        seen->rvalue[i]   = std::is_rvalue_reference<T&&>::value;
        seen->constant[i] = std::is_const<std::remove_reference_t<T>>::value;
    }
    template <typename T>
    std::uint32_t operator()(T&& x) const
    {
        ++seen->calls;
        one(0, std::forward<T>(x));
        return seen->answer;
    }
    template <typename T, typename U>
    std::uint32_t operator()(T&& x, U&& y) const
    {
        ++seen->calls;
        one(0, std::forward<T>(x));
        one(1, std::forward<U>(y));
        return seen->answer;
    }
    template <typename T, typename U, typename V>
    std::uint32_t operator()(T&& x, U&& y, V&& z) const
    {
        ++seen->calls;
        one(0, std::forward<T>(x));
        one(1, std::forward<U>(y));
        one(2, std::forward<V>(z));
        return seen->answer;
    }
};

// the answer, or nothing when refused
template <typename... Vs>
bool visited(Seen& seen, Vs&&... vs)
{
    seen.calls  = 0;
    seen.answer = vp_nondet_u32("answer");
#if defined(__cpp_exceptions)
    try
    {
        vp_assert(visit(Visitor{&seen}, std::forward<Vs>(vs)...) == seen.answer, "A02: the visitor's answer is returned");
        return true;
    }
    catch (const cetl::pf17::bad_variant_access&)
    {
        return false;
    }
#else
    vp_assert(visit(Visitor{&seen}, std::forward<Vs>(vs)...) == seen.answer, "A02: the visitor's answer is returned");
    return true;
#endif
}

const void* at(const W& w)
{
    switch (w.index())
    {
    case 0: return get_if<0>(&w);
    case 1: return get_if<1>(&w);
    default: return get_if<2>(&w);
    }
}

}  // namespace

VP_CONTRACT(c_var_visit_one) // A02
{
    vv::init();
    W     a(in_place_index<2>, 0U);
    State sa;
    enter(a, sa, "a_ix", "a");
    const W&   ca = a;
    Seen       seen;
    bool       called;
    bool       rvalue   = false;
    bool       constant = false;
    switch (vp_choose(4, "category"))
    {
    case 0: called = visited(seen, a); break;
    case 1:
        called   = visited(seen, ca);
        constant = true;
        break;
    case 2:
        called = visited(seen, std::move(a));
        rvalue = true;
        break;
    default:
        called   = visited(seen, std::move(ca));
        rvalue   = true;
        constant = true;
        break;
    }
    vp_assert(called == (sa.ix != variant_npos), "A02: exactly valueless variants are refused");
    vp_assert(seen.calls == (called ? 1 : 0), "A02: the visitor is called once");
    if (called)
    {
        vp_assert(seen.ix[0] == sa.ix && seen.at[0] == at(a), "A02: the visitor gets the live alternative");
        vp_assert(seen.rvalue[0] == rvalue && seen.constant[0] == constant, "A02: the visitor gets the alternative in the category of the variant");
    }
    is(a, sa);
    const unsigned n = visit(cetl::make_overloaded([](const B&) { return 10U; },
                                                   [&sa](const S&) { return sa.v; },
                                                   [](const auto& x) { return x + 1U; }),
                             sa.ix == variant_npos ? W(1U) : W(std::move(a)));
    vp_assert(n == (sa.ix == 0 ? 10U : sa.ix == 1 ? sa.v : sa.ix == 2 ? sa.v + 1U : 2U), "A02: the matching overload answers");
}
VP_CONTRACT(c_var_visit_two) // A02
{
    vv::init();
    W     a(in_place_index<2>, 0U);
    W     b(in_place_index<2>, 0U);
    State sa;
    State sb;
    enter(a, sa, "a_ix", "a");
    enter(b, sb, "b_ix", "b");
    Seen       seen;
    const bool move   = vp_nondet_bool("move");
    const bool called = move ? visited(seen, std::move(a), b) : visited(seen, a, static_cast<const W&>(b));
    vp_assert(called == (sa.ix != variant_npos && sb.ix != variant_npos), "A02: exactly valueless variants are refused");
    vp_assert(seen.calls == (called ? 1 : 0), "A02: the visitor is called once");
    if (called)
    {
        vp_assert(seen.ix[0] == sa.ix && seen.at[0] == at(a) && seen.ix[1] == sb.ix && seen.at[1] == at(b), "A02: the visitor gets the live alternatives");
        vp_assert(seen.rvalue[0] == move && !seen.constant[0] && !seen.rvalue[1] && seen.constant[1] == !move,
                  "A02: the visitor gets the alternatives in the category of the variants");
    }
    is(a, sa);
    is(b, sb);
}
VP_CONTRACT(c_var_visit_three) // A02
{
    vv::init();
    W                         a(in_place_index<2>, 0U);
    variant<std::uint32_t, S> b;
    variant<std::uint32_t, B> c;
    State                     sa;
    State                     sb;
    State                     sc;
    enter(a, sa, "a_ix", "a");
    enter2(b, sb, "b_ix", "b");
    enter2(c, sc, "c_ix", "c");
    Seen       seen;
    const bool called = visited(seen, a, b, std::move(c));
    vp_assert(called == (sa.ix != variant_npos), "A02: exactly valueless variants are refused");
    vp_assert(seen.calls == (called ? 1 : 0), "A02: the visitor is called once");
    if (called)
    {
        vp_assert(seen.ix[0] == sa.ix && seen.at[0] == at(a), "A02: the visitor gets the live alternatives");
        vp_assert(seen.ix[1] == (sb.ix == 0 ? 2U : 1U) && seen.at[1] == (sb.ix == 0 ? static_cast<const void*>(get_if<0>(&b)) : get_if<1>(&b)), "A02: the visitor gets the live alternatives");
        vp_assert(seen.ix[2] == (sc.ix == 0 ? 2U : 0U) && seen.at[2] == (sc.ix == 0 ? static_cast<const void*>(get_if<0>(&c)) : get_if<1>(&c)), "A02: the visitor gets the live alternatives");
        vp_assert(!seen.rvalue[0] && !seen.rvalue[1] && seen.rvalue[2], "A02: the visitor gets the alternatives in the category of the variants");
    }
}
VP_CONTRACT(c_var_visit_none) // A02
{
    const std::uint32_t x = vp_nondet_u32("x");
    vp_assert(visit([x]() { return x; }) == x, "A02: the visitor's answer is returned");
}
namespace
{
struct Within
{
    const std::uint32_t& operator()(const B& x) const { return x.v; }
    const std::uint32_t& operator()(const S& x) const { return x.v; }
    const std::uint32_t& operator()(const std::uint32_t& x) const { return x; }
};
}  // namespace
VP_CONTRACT(c_var_visit_reference) // A02
{
    vv::init();
    W     a(in_place_index<2>, 0U);
    State sa;
    enter(a, sa, "a_ix", "a");
    vp_assume(sa.ix != variant_npos);
    auto&& r = visit(Within{}, a);
    vp_assert(&r == visit([](const auto& x) { return &Within{}(x); }, a), "A02: a reference returned by the visitor is passed on");
}

// ------------------------------------------------------------------------------------------------ comparison
VP_CONTRACT(c_var_compare) // A02
{
    using Y = variant<std::uint32_t, std::uint16_t, std::uint64_t>;
    Y                   a(in_place_index<0>, 0U);
    Y                   b(in_place_index<0>, 0U);
    const unsigned      ia = vp_choose(3, "a_ix");
    const unsigned      ib = vp_choose(3, "b_ix");
    const std::uint16_t va = vp_nondet_u16("a");
    const std::uint16_t vb = vp_nondet_u16("b");
    ia == 0 ? (void) a.emplace<0>(va) : ia == 1 ? (void) a.emplace<1>(va) : (void) a.emplace<2>(va);
    ib == 0 ? (void) b.emplace<0>(vb) : ib == 1 ? (void) b.emplace<1>(vb) : (void) b.emplace<2>(vb);
    const std::uint32_t ka = (std::uint32_t(ia) << 16U) + va;
    const std::uint32_t kb = (std::uint32_t(ib) << 16U) + vb;
    vp_assert((a == b) == (ka == kb) && (a != b) == (ka != kb), "A02: variants compare by position, then value");
    vp_assert((a < b) == (ka < kb) && (a <= b) == (ka <= kb), "A02: variants compare by position, then value");
    vp_assert((a > b) == (ka > kb) && (a >= b) == (ka >= kb), "A02: variants compare by position, then value");
}
VP_CONTRACT(c_var_compare_valueless) // A02
{
    using cetl::pf17::monostate;
    vp_assert(monostate{} == monostate{} && !(monostate{} != monostate{}) && !(monostate{} < monostate{}) && !(monostate{} > monostate{}) &&
                  monostate{} <= monostate{} && monostate{} >= monostate{}, "A02: the unit alternatives are equal");
#if defined(__cpp_exceptions)
    struct Mine : vv::Val<3>
    {
        using vv::Val<3>::Val;
        bool operator==(const Mine& o) const { return read() == o.read(); }
        bool operator<(const Mine& o) const { return read() < o.read(); }
    };
    using Y = variant<Mine, std::uint32_t>;
    vv::init();
    Y              a(in_place_index<1>, 0U);
    Y              b(in_place_index<1>, 0U);
    std::uint64_t  k[2];
    for (unsigned i = 0; i < 2; ++i)
    {
        Y&                  y = i == 0 ? a : b;
        const std::uint32_t v = vp_nondet_u32("v");
        vp_assume(v != vv::MOVED);
        const unsigned ix = vp_choose(3, "ix");
        k[i]              = (std::uint64_t(ix) << 32U) + v;
        if (ix == 0)
        {
            k[i] = 0;
            try { y.emplace<0>(vv::Bomb{}); } catch (int) {}
        }
        else if (ix == 1)
        {
            y.emplace<0>(v);
        }
        else
        {
            y.emplace<1>(v);
        }
    }
    vp_assert((a == b) == (k[0] == k[1]) && (a != b) == (k[0] != k[1]), "A02: valueless is lowest");
    vp_assert((a < b) == (k[0] < k[1]) && (a <= b) == (k[0] <= k[1]), "A02: valueless is lowest");
    vp_assert((a > b) == (k[0] > k[1]) && (a >= b) == (k[0] >= k[1]), "A02: valueless is lowest");
#endif
}

namespace
{

// every comparison of two values has its own, arbitrary answer
static bool answer[6];
struct Side
{
    std::uint32_t v;
};
#define OP(i, o) \
    bool operator o(const Side& l, const Side& r) { return l.v == 1 && r.v == 2 && answer[i]; }
OP(0, ==)
OP(1, !=)
OP(2, <)
OP(3, <=)
OP(4, >)
OP(5, >=)
#undef OP

}  // namespace

VP_CONTRACT(c_var_compare_operators) // A02
{
    for (unsigned i = 0; i < 6; ++i)
    {
        answer[i] = vp_nondet_bool("answer");
    }
    const variant<std::uint32_t, Side> a(Side{1});
    const variant<std::uint32_t, Side> b(Side{2});
    vp_assert((a == b) == answer[0] && (a < b) == answer[2], "A02: equality and order are those of the values");
    vp_assert((a != b) == answer[1] && (a <= b) == answer[3] && (a > b) == answer[4] && (a >= b) == answer[5], "A02: the other comparisons are those of the values");
}
