// Contracts of the optional.
// VP-CONFIGS: 14x 14n 20x
#include "val.hpp"

#include "cetl/pf17/optional.hpp"

namespace
{

using cetl::pf17::in_place;
using cetl::pf17::nullopt;
using cetl::pf17::optional;

using V = vv::Val<1>;

// not copyable
struct Solo : vv::Val<2>
{
    using vv::Val<2>::Val;
    Solo(Solo&&)                 = default;
    Solo& operator=(Solo&&)      = default;
    Solo(const Solo&)            = delete;
    Solo& operator=(const Solo&) = delete;
};

// trivially destructible, but not trivially copyable
struct Note
{
    std::uint32_t v;
    const void*   me;
    explicit Note(std::uint32_t x)
        : v(x)
        , me(this)
    {
        vv::maybe_throw();
    }
    Note(const Note& o)
        : v(o.v)
        , me(this)
    {
        vv::maybe_throw();
    }
    Note(Note&& o)
        : v(o.v)
        , me(this)
    {
        vv::maybe_throw();
    }
    Note& operator=(const Note& o)
    {
        vp_assert(me == this, "a value is assigned only while it is alive");
        vv::maybe_throw();
        v = o.v;
        return *this;
    }
    Note& operator=(Note&& o)
    {
        vp_assert(me == this, "a value is assigned only while it is alive");
        vv::maybe_throw();
        v = o.v;
        return *this;
    }
};

// trivially constructible from its like, but not trivially assignable
struct Assigned
{
    std::uint32_t v;
    std::uint32_t to;
    explicit Assigned(std::uint32_t x)
        : v(x)
        , to(0)
    {
    }
    Assigned(const Assigned&) = default;
    Assigned(Assigned&&)      = default;
    Assigned& operator=(const Assigned& o)
    {
        v = o.v;
        ++to;
        return *this;
    }
    Assigned& operator=(Assigned&& o)
    {
        v = o.v;
        ++to;
        return *this;
    }
};

// trivially assignable, but not trivially constructible from its like
struct Copied
{
    std::uint32_t v;
    std::uint32_t from;
    explicit Copied(std::uint32_t x)
        : v(x)
        , from(0)
    {
    }
    Copied(const Copied& o)
        : v(o.v)
        , from(o.from + 1)
    {
    }
    Copied(Copied&& o)
        : v(o.v)
        , from(o.from + 1)
    {
    }
    Copied& operator=(const Copied&) = default;
    Copied& operator=(Copied&&)      = default;
};

// converts to V
struct From
{
    std::uint32_t v;
};
struct Conv : V
{
    using V::V;
    Conv(const From& f)
        : V(f.v)
    {
    }
    Conv& operator=(const From& f)
    {
        read();
        vv::maybe_throw();
        v = f.v;
        return *this;
    }
};

struct State
{
    bool          on;
    std::uint32_t v;
};

template <typename T>
std::uint32_t rd(const T& t)
{
    vp_assert(t.me == &t, "O01: an engaged optional holds a live value");
    return t.v;
}
std::uint32_t rd(const std::uint32_t& t) { return t; }
std::uint32_t rd(const Assigned& t) { return t.v; }
std::uint32_t rd(const Copied& t) { return t.v; }

template <typename T>
void make(optional<T>& o, State& s, const char* on, const char* v)
{
    s.on = vp_nondet_bool(on);
    s.v  = vp_nondet_u32(v);
    vp_assume(s.v != vv::MOVED);
    if (s.on)
    {
        o.emplace(s.v);
    }
}

template <typename T>
void is(const optional<T>& o, const State& s)
{
    vp_assert(o.has_value() == s.on && static_cast<bool>(o) == s.on, "O01: engaged as prescribed");
    if (s.on)
    {
        vp_assert(rd(*o) == s.v, "O01: holds the prescribed value");
    }
}

// some consistent state
template <typename T>
unsigned held(const optional<T>& o)
{
    if (o.has_value())
    {
        rd(*o);
    }
    return o.has_value() ? 1 : 0;
}

template <typename T>
void counted(const optional<T>& a, const optional<T>& b, bool tracked)
{
    const unsigned n = held(a) + held(b);
    vp_assert(!tracked || vv::live == n, "O01: exactly the values of engaged optionals are alive");
}

#if defined(__cpp_exceptions)
#    define TRY try
#    define CATCH(x)                                            \
        catch (int)                                             \
        {                                                       \
            VP_COVER_X("throws");                               \
            vp_assert(vv::thrown, "O01: only value operations throw"); \
            x;                                                  \
        }
#else
#    define TRY
#    define CATCH(x)
#endif

// assignment of optionals, with b the source
template <typename T, bool Move>
void assign(bool tracked)
{
    vv::init();
    {
        optional<T> a;
        optional<T> b;
        State       sa;
        State       sb;
        make(a, sa, "a_on", "a");
        make(b, sb, "b_on", "b");
        vv::may_throw = true;
        bool ok       = false;
        TRY
        {
            optional<T>& r = Move ? (a = std::move(b)) : (a = static_cast<optional<T>&&>(b));
            vp_assert(&r == &a, "O01: assignment returns the optional");
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            is(a, sb);
        }
        else
        {
            vp_assert(a.has_value() == sa.on, "O01: a failed assignment leaves the optional engaged or not as it was");
        }
        vp_assert(b.has_value() == sb.on, "O01: the source stays engaged as it was");
        counted(a, b, tracked);
    }
    vp_assert(!tracked || vv::live == 0, "O01: every value is destroyed");
}

template <typename T>
void copy_assign(bool tracked)
{
    vv::init();
    {
        optional<T> a;
        optional<T> b;
        State       sa;
        State       sb;
        make(a, sa, "a_on", "a");
        make(b, sb, "b_on", "b");
        vv::may_throw        = true;
        bool               ok = false;
        const optional<T>& cb = b;
        TRY
        {
            vp_assert(&(a = cb) == &a, "O01: assignment returns the optional");
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            vp_cover("assigned");
            is(a, sb);
        }
        else
        {
            is(a, sa);
        }
        is(b, sb);
        counted(a, b, tracked);
    }
    vp_assert(!tracked || vv::live == 0, "O01: every value is destroyed");
}

template <typename T>
void copy_construct(bool tracked)
{
    vv::init();
    {
        optional<T> b;
        State       sb;
        make(b, sb, "b_on", "b");
        vv::may_throw         = true;
        const optional<T>& cb = b;
        TRY
        {
            optional<T> a(cb);
            vv::may_throw = false;
            is(a, sb);
            is(b, sb);
            counted(a, b, tracked);
        }
        CATCH()
        vv::may_throw = false;
        is(b, sb);
        vp_assert(!tracked || vv::live == (sb.on ? 1 : 0), "O01: every value is destroyed");
    }
    vp_assert(!tracked || vv::live == 0, "O01: every value is destroyed");
}

template <typename T>
void move_construct(bool tracked)
{
    vv::init();
    {
        optional<T> b;
        State       sb;
        make(b, sb, "b_on", "b");
        vv::may_throw = true;
        TRY
        {
            optional<T> a(std::move(b));
            vv::may_throw = false;
            is(a, sb);
            vp_assert(b.has_value() == sb.on, "O01: the source stays engaged as it was");
            counted(a, b, tracked);
        }
        CATCH()
        vv::may_throw = false;
        vp_assert(b.has_value() == sb.on, "O01: the source stays engaged as it was");
        vp_assert(!tracked || vv::live == (sb.on ? 1 : 0), "O01: every value is destroyed");
    }
    vp_assert(!tracked || vv::live == 0, "O01: every value is destroyed");
}

template <typename T>
void swapping(bool tracked)
{
    vv::init();
    {
        optional<T> a;
        optional<T> b;
        State       sa;
        State       sb;
        make(a, sa, "a_on", "a");
        make(b, sb, "b_on", "b");
        vv::may_throw = true;
        bool ok       = false;
        TRY
        {
            a.swap(b);
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            vp_cover("swapped");
            is(a, sb);
            is(b, sa);
        }
        else
        {
            vp_assert(a.has_value() == sa.on && b.has_value() == sb.on, "O01: a failed swap leaves both engaged or not as they were");
        }
        counted(a, b, tracked);
    }
    vp_assert(!tracked || vv::live == 0, "O01: every value is destroyed");
}

template <typename T>
void in_place_ops(bool tracked)
{
    vv::init();
    {
        optional<T>         a;
        State               sa;
        const std::uint32_t x = vp_nondet_u32("x");
        vp_assume(x != vv::MOVED);
        make(a, sa, "a_on", "a");
        vv::may_throw = true;
        bool ok       = false;
        switch (vp_choose(4, "op"))
        {
        case 0:
            TRY
            {
                T& r = a.emplace(x);
                ok   = true;
                vp_assert(&r == &*a, "O01: emplace returns the value");
                sa = State{true, x};
            }
            CATCH(sa.on = false)
            break;
        case 1:
            a.reset();
            sa.on = false;
            break;
        case 2:
            vp_assert(&(a = nullopt) == &a, "O01: assignment returns the optional");
            sa.on = false;
            break;
        default:
            a     = {};
            sa.on = false;
            break;
        }
        vv::may_throw = false;
        is(a, sa);
        vp_assert(!tracked || vv::live == held(a), "O01: exactly the values of engaged optionals are alive");
        a.reset();
        vp_assert(!a.has_value() && (!tracked || vv::live == 0), "O01: every value is destroyed");
    }
    vp_assert(!tracked || vv::live == 0, "O01: every value is destroyed");
}

}  // namespace

VP_CONTRACT(c_opt_copy_assign) // O01
{
    copy_assign<V>(true);
}
VP_CONTRACT(c_opt_copy_assign_u32) // O01 configs=14x
{
    vv::init();
    optional<std::uint32_t> a;
    optional<std::uint32_t> b;
    State                   sa;
    State                   sb;
    make(a, sa, "a_on", "a");
    make(b, sb, "b_on", "b");
    optional<std::uint32_t> c(b);
    is(c, sb);
    optional<std::uint32_t> d(std::move(c));
    is(d, sb);
    const optional<std::uint32_t>& cb = b;
    vp_assert(&(a = cb) == &a, "O01: assignment returns the optional");
    is(a, sb);
    is(b, sb);
    a = std::move(d);
    is(a, sb);
    a = std::uint32_t(sa.v);
    is(a, State{true, sa.v});
    a.swap(b);
    is(a, sb);
    is(b, State{true, sa.v});
    b = nullopt;
    is(b, State{false, 0});
    optional<std::uint64_t> w(a);
    vp_assert(w.has_value() == sb.on && (!sb.on || *w == sb.v), "O01: holds the prescribed value");
    w = b;
    vp_assert(!w.has_value(), "O01: engaged as prescribed");
}
VP_CONTRACT(c_opt_copy_assign_note) // O01
{
    copy_assign<Note>(false);
}
VP_CONTRACT(c_opt_move_assign) // O01
{
    assign<V, true>(true);
}
VP_CONTRACT(c_opt_move_assign_solo) // O01
{
    assign<Solo, true>(true);
}
VP_CONTRACT(c_opt_move_assign_note) // O01
{
    assign<Note, false>(false);
}
VP_CONTRACT(c_opt_copy_construct) // O01
{
    copy_construct<V>(true);
}
VP_CONTRACT(c_opt_copy_construct_note) // O01
{
    copy_construct<Note>(false);
}
VP_CONTRACT(c_opt_move_construct) // O01
{
    move_construct<V>(true);
}
VP_CONTRACT(c_opt_move_construct_solo) // O01
{
    move_construct<Solo>(true);
}
VP_CONTRACT(c_opt_move_construct_note) // O01
{
    move_construct<Note>(false);
}
VP_CONTRACT(c_opt_swap) // O01
{
    swapping<V>(true);
}
VP_CONTRACT(c_opt_swap_solo) // O01
{
    swapping<Solo>(true);
}
VP_CONTRACT(c_opt_in_place) // O01
{
    in_place_ops<V>(true);
}
VP_CONTRACT(c_opt_in_place_note) // O01
{
    in_place_ops<Note>(false);
}
VP_CONTRACT(c_opt_assigned) // O01
{
    // the value's own assignment is used exactly when both are engaged
    vv::init();
    optional<Assigned> a;
    optional<Assigned> b;
    State              sa;
    State              sb;
    make(a, sa, "a_on", "a");
    make(b, sb, "b_on", "b");
    if (vp_nondet_bool("move"))
    {
        a = std::move(b);
    }
    else
    {
        const optional<Assigned>& cb = b;
        a                            = cb;
    }
    is(a, sb);
    vp_assert(!a.has_value() || a->to == (sa.on ? 1 : 0), "O01: the value is assigned exactly when both are engaged");
    optional<Assigned> c(a);
    is(c, sb);
}
VP_CONTRACT(c_opt_copied) // O01
{
    // the value's own construction is used exactly when the target is not engaged
    vv::init();
    optional<Copied> a;
    optional<Copied> b;
    State            sa;
    State            sb;
    make(a, sa, "a_on", "a");
    make(b, sb, "b_on", "b");
    const bool move = vp_nondet_bool("move");
    if (move)
    {
        a = std::move(b);
    }
    else
    {
        const optional<Copied>& cb = b;
        a                          = cb;
    }
    is(a, sb);
    vp_assert(!a.has_value() || a->from == (sa.on ? 0 : 1), "O01: a value is constructed exactly when the target is empty");
    optional<Copied> c(a);
    is(c, sb);
    vp_assert(!a.has_value() || c->from == a->from + 1, "O01: a value is constructed exactly when the target is empty");
    optional<Copied> d(std::move(a));
    is(d, sb);
    vp_assert(!sb.on || d->from == c->from, "O01: a value is constructed exactly when the target is empty");
}
VP_CONTRACT(c_opt_self) // O01
{
    vv::init();
    {
        optional<V> a;
        State       sa;
        make(a, sa, "a_on", "a");
        vv::may_throw        = true;
        optional<V>& self    = a;
        const bool   copying = vp_nondet_bool("copy");
        TRY
        {
            if (copying)
            {
                a = static_cast<const optional<V>&>(self);
            }
            else
            {
                a.swap(self);
            }
            vp_cover("done");
        }
        CATCH()
        vv::may_throw = false;
        vp_assert(a.has_value() == sa.on && held(a) == vv::live, "O01: engaged as it was");
        if (copying)
        {
            is(a, sa);
        }
    }
    vp_assert(vv::live == 0, "O01: every value is destroyed");
}
VP_CONTRACT(c_opt_from_value) // O01
{
    // construction and assignment from values
    vv::init();
    {
        optional<V>         a;
        State               sa;
        const std::uint32_t x = vp_nondet_u32("x");
        vp_assume(x != vv::MOVED);
        make(a, sa, "a_on", "a");
        V    val(x);
        bool move     = vp_nondet_bool("move");
        bool ok       = false;
        vv::may_throw = true;
        TRY
        {
            if (move)
            {
                a = std::move(val);
            }
            else
            {
                a = val;
            }
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            is(a, State{true, x});
        }
        else
        {
            is(a, sa);
        }
        vp_assert(vv::live == 1 + held(a), "O01: exactly the values of engaged optionals are alive");
    }
    vp_assert(vv::live == 0, "O01: every value is destroyed");
}
VP_CONTRACT(c_opt_constructors) // O01
{
    vv::init();
    const std::uint32_t x = vp_nondet_u32("x");
    const std::uint32_t y = vp_nondet_u32("y");
    vp_assume(x != vv::MOVED && x + y != vv::MOVED);
    vv::may_throw = true;
    TRY
    {
        optional<V> a;
        optional<V> b(nullopt);
        is(a, State{false, 0});
        is(b, State{false, 0});
        optional<V> c(in_place, x, y);
        is(c, State{true, x + y});
        V           v(x);
        optional<V> d(v);
        is(d, State{true, x});
        optional<V> e(std::move(v));
        is(e, State{true, x});
        auto f = cetl::pf17::make_optional<V>(x, y);
        is(f, State{true, x + y});
        vp_assert(vv::live == 5, "O01: exactly the values of engaged optionals are alive");
        vp_cover("all");
    }
    CATCH()
    vp_assert(vv::live == 0, "O01: every value is destroyed");
}
VP_CONTRACT(c_opt_converting) // O01
{
    vv::init();
    {
        optional<From> b;
        State          sb;
        sb.on = vp_nondet_bool("b_on");
        sb.v  = vp_nondet_u32("b");
        if (sb.on)
        {
            b.emplace(From{sb.v});
        }
        vv::may_throw = true;
        TRY
        {
            optional<Conv> c(b);
            is(c, sb);
            optional<Conv> d(std::move(b));
            is(d, sb);
        }
        CATCH()
        vp_assert(vv::live == 0, "O01: every value is destroyed");
        vv::may_throw = false;
        optional<Conv> a;
        State          sa;
        make(a, sa, "a_on", "a");
        vv::may_throw = true;
        bool ok       = false;
        TRY
        {
            if (vp_nondet_bool("move"))
            {
                a = std::move(b);
            }
            else
            {
                a = b;
            }
            ok = true;
        }
        CATCH()
        vv::may_throw = false;
        if (ok)
        {
            is(a, sb);
        }
        else
        {
            is(a, sa);
        }
        vp_assert(vv::live == held(a), "O01: exactly the values of engaged optionals are alive");
    }
    vp_assert(vv::live == 0, "O01: every value is destroyed");
}

// ------------------------------------------------------------------------------------------------ access, comparison
namespace
{

// every comparison of two values has its own, arbitrary answer
static bool     answer[6];
static unsigned asked[6];
static bool     right_order;
struct Side
{
    std::uint32_t v;
};
#define OP(i, o)                                       \
    bool operator o(const Side& l, const Side& r)          \
    {                                                  \
        ++asked[i];                                    \
        right_order = right_order && l.v == 1 && r.v == 2; \
        return answer[i];                              \
    }
OP(0, ==)
OP(1, !=)
OP(2, <)
OP(3, <=)
OP(4, >)
OP(5, >=)
#undef OP

// the prescribed answer; `a`/`b`: engaged
bool prescribed(unsigned i, bool a, bool b)
{
    switch (i)
    {
    case 0: return a && b ? answer[0] : a == b;
    case 1: return a && b ? answer[1] : a != b;
    case 2: return a && b ? answer[2] : !a && b;
    case 3: return a && b ? answer[3] : !a;
    case 4: return a && b ? answer[4] : a && !b;
    default: return a && b ? answer[5] : !b;
    }
}

void any_answers()
{
    for (unsigned i = 0; i < 6; ++i)
    {
        answer[i] = vp_nondet_bool("answer");
        asked[i]  = 0;
    }
    right_order = true;
}

template <typename A, typename B>
bool compare(unsigned i, const A& a, const B& b)
{
    switch (i)
    {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a < b;
    case 3: return a <= b;
    case 4: return a > b;
    default: return a >= b;
    }
}

}  // namespace

VP_CONTRACT(c_opt_compare) // O02
{
    optional<Side> a;
    optional<Side> b;
    const bool     ea = vp_nondet_bool("a_on");
    const bool     eb = vp_nondet_bool("b_on");
    if (ea)
    {
        a.emplace(Side{1});
    }
    if (eb)
    {
        b.emplace(Side{2});
    }
    const unsigned i = vp_choose(6, "operator");
    any_answers();
    vp_assert(compare(i, a, b) == prescribed(i, ea, eb), "O02: optionals compare as prescribed");
    vp_assert(compare(i, a, Side{2}) == prescribed(i, ea, true), "O02: optional and value compare as prescribed");
    vp_assert(compare(i, Side{1}, b) == prescribed(i, true, eb), "O02: value and optional compare as prescribed");
    vp_assert(compare(i, a, nullopt) == prescribed(i, ea, false), "O02: optional and empty marker compare as prescribed");
    vp_assert(compare(i, nullopt, b) == prescribed(i, false, eb), "O02: empty marker and optional compare as prescribed");
    vp_assert(right_order, "O02: values are compared in the given order");
}
VP_CONTRACT(c_opt_compare_u32) // O02
{
    optional<std::uint32_t> a;
    optional<std::uint32_t> b;
    State                   sa;
    State                   sb;
    make(a, sa, "a_on", "a");
    make(b, sb, "b_on", "b");
    const std::uint64_t ka = sa.on ? std::uint64_t(sa.v) + 1 : 0;
    const std::uint64_t kb = sb.on ? std::uint64_t(sb.v) + 1 : 0;
    vp_assert((a == b) == (ka == kb) && (a != b) == (ka != kb), "O02: empty precedes every value");
    vp_assert((a < b) == (ka < kb) && (a <= b) == (ka <= kb), "O02: empty precedes every value");
    vp_assert((a > b) == (ka > kb) && (a >= b) == (ka >= kb), "O02: empty precedes every value");
    const std::uint64_t kv = std::uint64_t(sb.v) + 1;
    vp_assert((a == sb.v) == (ka == kv) && (a < sb.v) == (ka < kv) && (sb.v <= a) == (kv <= ka), "O02: empty precedes every value");
}
VP_CONTRACT(c_opt_access) // O02
{
    vv::init();
    {
        optional<V> a;
        State       sa;
        make(a, sa, "a_on", "a");
        const optional<V>&  ca = a;
        const std::uint32_t x  = vp_nondet_u32("x");
        vp_assume(x != vv::MOVED);
        if (sa.on)
        {
            vp_assert(&a.value() == &*a && &ca.value() == &*ca && &*ca == &*a, "O02: access gives the held value");
            vp_assert(a.operator->() == &*a && ca.operator->() == &*a, "O02: access gives the held value");
            V&&       r = std::move(a).value();
            V&&       q = *std::move(a);
            const V&& p = std::move(ca).value();
            const V&& o = *std::move(ca);
            vp_assert(&r == &*a && &q == &*a && &p == &*a && &o == &*a, "O02: access gives the held value");
        }
#if defined(__cpp_exceptions)
        unsigned bad = 0;
        try { (void) a.value(); } catch (const cetl::pf17::bad_optional_access&) { ++bad; }
        try { (void) ca.value(); } catch (const cetl::pf17::bad_optional_access&) { ++bad; }
        try { (void) std::move(a).value(); } catch (const cetl::pf17::bad_optional_access&) { ++bad; }
        try { (void) std::move(ca).value(); } catch (const cetl::pf17::bad_optional_access&) { ++bad; }
        vp_assert(bad == (sa.on ? 0 : 4), "O02: access to an empty optional is refused");
#endif
        {
            const V v = ca.value_or(V(x));
            vp_assert(v.read() == (sa.on ? sa.v : x), "O02: the fallback is used exactly when empty");
            is(a, sa);
        }
        {
            const V v = std::move(a).value_or(V(x));
            vp_assert(v.read() == (sa.on ? sa.v : x), "O02: the fallback is used exactly when empty");
            vp_assert(a.has_value() == sa.on, "O02: access leaves the optional engaged as it was");
        }
        vp_assert(vv::live == (sa.on ? 1 : 0), "O02: access leaves no value behind");
    }
    vp_assert(vv::live == 0, "O02: access leaves no value behind");
}
