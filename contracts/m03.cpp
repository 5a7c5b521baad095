// Contracts of the polymorphic allocator, the memory resource front end and the null resource.
// VP-CONFIGS: 14x 14n
#include "res.hpp"

#include "cetl/pf17/memory_resource.hpp"

namespace
{

namespace pmr = cetl::pf17::pmr;

struct alignas(64) Over
{
    char c[192];
};

struct Odd
{
    char c[3];
};

constexpr std::size_t MAX = std::numeric_limits<std::size_t>::max();

template <typename T>
T* take(pmr::polymorphic_allocator<T>& a, std::size_t n)
{
    rs::reset();
    T* p = nullptr;
#if defined(__cpp_exceptions)
    bool length = false;
    try
    {
        p = a.allocate(n);
        vp_assert(p != nullptr, "M03: allocation failure is an exception");
    } catch (const std::bad_array_new_length&)
    {
        length = true;
    } catch (const std::bad_alloc&)
    {
        vp_assert(rs::failed, "M03: refused only if the resource refuses");
    }
    vp_assert(length == (n > MAX / sizeof(T)), "M03: counts whose size overflows are refused");
#else
    p = a.allocate(n);
#endif
    if (n > MAX / sizeof(T))
    {
        vp_assert(p == nullptr && rs::gets == 0, "M03: counts whose size overflows are refused");
    }
    else
    {
        vp_assert(rs::gets == 1 && rs::last_size == n * sizeof(T) && rs::last_align == alignof(T), "M03: the resource is asked for the bytes of the elements at their alignment");
        vp_assert(p == rs::last_ptr, "M03: the answer of the resource is handed on");
    }
    return p;
}

template <typename T>
void round_trip()
{
    rs::init();
    rs::may_fail = true;
    rs::Mr                        mr(1);
    pmr::polymorphic_allocator<T> a(&mr);
    vp_assert(a.resource() == &mr, "M03: the allocator uses the given resource");
    const std::size_t n = vp_nondet_size("n");
    T* const          p = take(a, n);
    if (p != nullptr)
    {
        vp_cover("allocated");
        a.deallocate(p, n);
        vp_assert(rs::puts_ == 1 && rs::live_blocks == 0, "M03: the block goes back to the resource");
    }
    else
    {
        vp_cover("refused");
    }
}

template <typename T>
void resizing()
{
    rs::init();
    rs::Mr mr(1, true);
    mr.throws = true;
    pmr::polymorphic_allocator<T> a(&mr);
    const std::size_t             n = vp_nondet_size("n");
    const std::size_t             m = vp_nondet_size("m");
    vp_assume(n > 0 && m > 0);
    T* const p = take(a, n);
    if (p == nullptr)
    {
        return;
    }
    rs::reset();
    T* q = nullptr;
#if defined(__cpp_exceptions)
    try
    {
        q = a.reallocate(p, n, m);
    } catch (const std::bad_alloc&)
    {
        VP_COVER_X("thrown");
        vp_assert(rs::failed, "M03: refused only if the resource refuses");
    }
#else
    q = a.reallocate(p, n, m);
#endif
    if (m > MAX / sizeof(T))
    {
        vp_assert(q == nullptr && rs::resizes == 0, "M03: counts whose size overflows are refused");
    }
    else
    {
        vp_assert(rs::resizes == 1, "M03: the resource resizes the block");
        if (q != nullptr)
        {
            vp_cover("resized");
            vp_assert(rs::last_ptr == q && rs::last_size == m * sizeof(T) && rs::last_align == alignof(T), "M03: the resource is asked for the bytes of the elements at their alignment");
        }
    }
    if (q != nullptr)
    {
        a.deallocate(q, m);
    }
    else
    {
        a.deallocate(p, n);
    }
    vp_assert(rs::live_blocks == 0, "M03: the block goes back to the resource");
}

// a resource equal to those of its group
class Grouped : public pmr::memory_resource
{
public:
    explicit Grouped(unsigned g)
        : group(g)
    {
    }
    unsigned group;

private:
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void  do_deallocate(void*, std::size_t, std::size_t) override {}
    bool  do_is_equal(const pmr::memory_resource& rhs) const noexcept override
    {
        return static_cast<const Grouped&>(rhs).group == group;
    }
};

// something that is not one of this library's resources
struct Foreign
{
};

struct Plainly
{
    int a, b;
    Plainly(int x, int y)
        : a(x)
        , b(y)
    {
    }
};

static unsigned destroyed;

struct Leading
{
    using allocator_type = pmr::polymorphic_allocator<char>;
    pmr::memory_resource* r;
    int                   v;
    Leading(std::allocator_arg_t, const allocator_type& a, int x)
        : r(a.resource())
        , v(x)
    {
    }
    Leading(const Leading&) = default;
    ~Leading() { ++destroyed; }
};

struct Trailing
{
    using allocator_type = pmr::polymorphic_allocator<char>;
    pmr::memory_resource* r;
    int                   v;
    Trailing(int x, const allocator_type& a)
        : r(a.resource())
        , v(x)
    {
    }
};

}  // namespace

VP_CONTRACT(c_m03_char) // M03
{
    round_trip<char>();
}
VP_CONTRACT(c_m03_odd) // M03
{
    round_trip<Odd>();
}
VP_CONTRACT(c_m03_over) // M03
{
    round_trip<Over>();
}
VP_CONTRACT(c_m03_resize_u32) // M03
{
    resizing<std::uint32_t>();
}
VP_CONTRACT(c_m03_resize_odd) // M03
{
    resizing<Odd>();
}
VP_CONTRACT(c_m03_resize_over) // M03
{
    resizing<Over>();
}
VP_CONTRACT(c_m03_sharing) // M03
{
    Grouped                                 x(vp_nondet_u32("group"));
    Grouped                                 y(vp_nondet_u32("group"));
    const bool                              same = vp_nondet_bool("same");
    pmr::polymorphic_allocator<std::uint32_t> a(&x);
    pmr::polymorphic_allocator<std::uint32_t> b(a);
    pmr::polymorphic_allocator<Over>          c(a);
    pmr::polymorphic_allocator<Over>          d(same ? &x : &y);
    vp_assert(b.resource() == &x && c.resource() == &x, "M03: copies and conversions share the resource");
    vp_assert(a.select_on_container_copy_construction().resource() == &x, "M03: copies and conversions share the resource");
    const bool equal = same || x.group == y.group;
    vp_assert((a == d) == equal && (d == a) == equal, "M03: comparison follows resource equality");
    vp_assert((a != d) == !equal && (c != d) == !equal && (c == d) == equal, "M03: comparison follows resource equality");
    pmr::memory_resource& r = x;
    pmr::memory_resource& s = *d.resource();
    vp_assert((r == s) == equal && (r != s) == !equal, "M03: comparison follows resource equality");
}
VP_CONTRACT(c_m03_front) // M03
{
    // the public interface hands every argument to the implementation
    rs::init();
    rs::may_fail           = true;
    const std::size_t um   = vp_nondet_size("max");
    const std::size_t n    = vp_nondet_size("n");
    const std::size_t a    = rs::any_align("align");
    rs::Mr            mr(1, true, um);
    pmr::memory_resource& r = mr;
    vp_assert(r.max_size() == um, "M03: the front end hands on the answer");
    vp_assert(pmr::deviant::memory_resource_traits<pmr::memory_resource>::max_size(r) == um, "M03: the front end hands on the answer");
    vp_assert(pmr::polymorphic_allocator<Over>(&r).max_size() == um / sizeof(Over), "M03: the maximum count is the maximum size in elements");
    vp_assert(pmr::polymorphic_allocator<Odd>(&r).max_size() == um / 3, "M03: the maximum count is the maximum size in elements");
    void* p = nullptr;
#if defined(__cpp_exceptions)
    try
    {
        p = r.allocate(n, a);
    } catch (const std::bad_alloc&)
    {
    }
#else
    p = r.allocate(n, a);
#endif
    vp_assert(rs::gets == 1, "M03: the front end asks once");
    if (p != nullptr)
    {
        vp_assert(rs::last_ptr == p && rs::last_size == n && rs::last_align == a, "M03: the front end hands on the arguments");
        r.deallocate(p, n, a);
        vp_assert(rs::live_blocks == 0, "M03: the block goes back to the resource");
    }
    Grouped g(1);
    vp_assert(g.max_size() == MAX && g.reallocate(nullptr, 0, n, a) == nullptr, "M03: defaults: no maximum, no resizing");
    Foreign f;
    vp_assert(pmr::deviant::memory_resource_traits<Foreign>::max_size(f) == MAX, "M03: defaults: no maximum, no resizing");
}
VP_CONTRACT(c_m03_null) // M03
{
    pmr::memory_resource* const r = pmr::null_memory_resource();
    vp_assert(r != nullptr && r == pmr::null_memory_resource(), "M03: there is one null resource");
    rs::Mr other(1);
    vp_assert(r->is_equal(*r) && !r->is_equal(other), "M03: the null resource equals only itself");
    vp_assert(r->max_size() == 0, "M03: the null resource has no memory");
    const std::size_t n = vp_nondet_size("n");
    const std::size_t a = rs::any_align("align");
    void*             p = nullptr;
#if defined(__cpp_exceptions)
    bool thrown = false;
    try
    {
        p = r->allocate(n, a);
    } catch (const std::bad_alloc&)
    {
        thrown = true;
    }
    vp_assert(thrown, "M03: the null resource refuses every allocation");
#else
    p = r->allocate(n, a);
#endif
    vp_assert(p == nullptr, "M03: the null resource refuses every allocation");
    vp_assert(r->reallocate(&other, n, n, a) == nullptr, "M03: the null resource refuses every allocation");
    r->deallocate(&other, n, a);
}
VP_CONTRACT(c_m03_construct) // M03
{
    rs::Mr                           mr(1);
    pmr::polymorphic_allocator<char> a(&mr);
    const int                        x = static_cast<int>(vp_nondet_u32("x"));
    const int                        y = static_cast<int>(vp_nondet_u32("y"));
    {
        alignas(Plainly) char s[sizeof(Plainly)];
        Plainly* const        p = reinterpret_cast<Plainly*>(s);
        a.construct(p, x, y);
        vp_assert(p->a == x && p->b == y, "M03: construction forwards the arguments");
    }
    {
        alignas(Leading) char s[sizeof(Leading)];
        Leading* const        p = reinterpret_cast<Leading*>(s);
        destroyed               = 0;
        a.construct(p, x);
        vp_assert(p->v == x && p->r == &mr, "M03: construction hands on the resource");
        a.destroy(p);
        vp_assert(destroyed == 1, "M03: destroy destroys once");
        a.destroy(static_cast<Leading*>(nullptr));
        vp_assert(destroyed == 1, "M03: destroy destroys once");
    }
    {
        alignas(Trailing) char s[sizeof(Trailing)];
        Trailing* const        p = reinterpret_cast<Trailing*>(s);
        a.construct(p, x);
        vp_assert(p->v == x && p->r == &mr, "M03: construction hands on the resource");
    }
    {
        using P = std::pair<int, int>;
        alignas(P) char s[sizeof(P)];
        P* const        p = reinterpret_cast<P*>(s);
        a.construct(p, x, y);
        vp_assert(p->first == x && p->second == y, "M03: construction forwards the arguments");
        const std::pair<int, int> q(y, x);
        a.construct(p, q);
        vp_assert(p->first == y && p->second == x, "M03: construction forwards the arguments");
        a.construct(p, std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x));
        vp_assert(p->first == x && p->second == x, "M03: construction forwards the arguments");
        a.construct(p);
        vp_assert(p->first == 0 && p->second == 0, "M03: construction forwards the arguments");
    }
}
