// Contracts of the heap resource and of the process-wide resources.
// VP-CONFIGS: 14x 14n
#include "res.hpp"

#include <cstdlib>

// The C heap is a ghost resource: the names are replaced before the header is read.
namespace ghost_heap
{
inline void* allocate(std::size_t n) { return rs::get(9, n, alignof(std::max_align_t)); }
inline void  release(void* p)
{
    rs::Blk* const b = p == nullptr ? nullptr : rs::find(p);
    vp_assert(p == nullptr || b != nullptr, "M04: each block goes back to the heap once");
    rs::put(9, p, p == nullptr ? 0 : b->size, alignof(std::max_align_t));
}
inline void* resize(void* p, std::size_t n)
{
    if (p == nullptr)
    {
        return allocate(n);
    }
    rs::Blk* const b = rs::find(p);
    vp_assert(b != nullptr, "M04: a resized block came from the heap");
    return rs::resize(9, p, b->size, n, b->align);
}
}  // namespace ghost_heap
namespace std
{
inline void* vp_malloc(std::size_t n) { return ghost_heap::allocate(n); }
inline void  vp_free_block(void* p) { ghost_heap::release(p); }
inline void* vp_realloc(void* p, std::size_t n) { return ghost_heap::resize(p, n); }
}  // namespace std
#define malloc vp_malloc
#define free vp_free_block
#define realloc vp_realloc
#include "cetl/pf17/sys/memory_resource.hpp"
#undef malloc
#undef free
#undef realloc

namespace
{

namespace pmr = cetl::pf17::pmr;

char* take(pmr::memory_resource& r, std::size_t n, std::size_t a)
{
    char* p = nullptr;
    rs::reset();
#if defined(__cpp_exceptions)
    try
    {
        p = static_cast<char*>(r.allocate(n, a));
        vp_assert(p != nullptr, "M04: allocation failure is an exception");
    } catch (const std::bad_alloc&)
    {
    }
#else
    p = static_cast<char*>(r.allocate(n, a));
#endif
    if (p == nullptr)
    {
        vp_cover("refused");
        vp_assert(rs::live_blocks == 0, "M04: a refused request keeps no memory");
        vp_assert(rs::failed || a > alignof(std::max_align_t), "M04: refused only if the heap refuses or the alignment is too large");
    }
    else
    {
        vp_cover("allocated");
        const rs::Blk* const b = rs::find(p);
        vp_assert(b != nullptr && b->base == p && b->size >= n, "M04: memory is as large as requested");
        vp_assert(rs::aligned(p, a), "M04: memory is aligned as requested");
    }
    return p;
}

}  // namespace

VP_CONTRACT(c_m04_heap) // M04
{
    rs::init();
    rs::may_fail                  = true;
    const std::size_t           n = vp_nondet_size("n");
    const std::size_t           a = rs::any_align("align");
    pmr::memory_resource* const r = pmr::new_delete_resource();
    vp_assume(n > 0);
    char* const p = take(*r, n, a);
    if (p != nullptr)
    {
        r->deallocate(p, n, a);
        vp_assert(rs::live_blocks == 0 && rs::puts_ == 1, "M04: each block goes back to the heap once");
    }
    pmr::deviant::MaxAlignNewDeleteResource other;
    vp_assert(r->is_equal(*r) && *r == *r && !r->is_equal(other), "M04: a resource equals only itself");
    vp_assert(r->max_size() == std::numeric_limits<std::size_t>::max(), "M04: the heap has no maximum");
}
VP_CONTRACT(c_m04_resize) // M04
{
    rs::init();
    rs::may_fail                  = true;
    const std::size_t           n = vp_nondet_size("n");
    const std::size_t           m = vp_nondet_size("m");
    const std::size_t           k = vp_nondet_size("k");
    const std::uint8_t          c = vp_nondet_u8("byte");
    const std::size_t           a = vp_choose(2, "align") == 0 ? 1 : alignof(std::max_align_t);
    pmr::memory_resource* const r = pmr::new_delete_resource();
    vp_assume(n > 0 && m > 0);
    char* const p = take(*r, n, a);
    if (p == nullptr)
    {
        return;
    }
    if (k < n)
    {
        p[k] = static_cast<char>(c);
    }
    rs::reset();
    char* q = nullptr;
#if defined(__cpp_exceptions)
    try
    {
        q = static_cast<char*>(r->reallocate(p, n, m, a));
    } catch (const std::bad_alloc&)
    {
    }
#else
    q = static_cast<char*>(r->reallocate(p, n, m, a));
#endif
    if (q == nullptr)
    {
        vp_cover("not resized");
        vp_assert(rs::find(p) != nullptr && rs::live_blocks == 1, "M04: a failed resize keeps the old block");
        if (k < n)
        {
            vp_assert(static_cast<std::uint8_t>(p[k]) == c, "M04: resizing keeps the content");
        }
        r->deallocate(p, n, a);
    }
    else
    {
        vp_cover("resized");
        const rs::Blk* const b = rs::find(q);
        vp_assert(b != nullptr && b->base == q && b->size >= m && rs::live_blocks == 1, "M04: resized memory is as large as requested");
        if (k < n && k < m)
        {
            vp_assert(static_cast<std::uint8_t>(q[k]) == c, "M04: resizing keeps the content");
        }
        r->deallocate(q, m, a);
    }
    vp_assert(rs::live_blocks == 0, "M04: each block goes back to the heap once");
}
VP_CONTRACT(c_m04_default) // M04
{
    rs::Mr                      x(1);
    rs::Mr                      y(2);
    pmr::memory_resource* const nd = pmr::new_delete_resource();
    vp_assert(nd != nullptr && pmr::get_default_resource() == nd, "M04: the built-in default is the heap resource");
    pmr::memory_resource* now = nd;
    for (int i = 0; i < 3; ++i)
    {
        const unsigned              o   = vp_choose(3, "which");
        pmr::memory_resource* const r   = o == 0 ? nullptr : o == 1 ? &x : &y;
        pmr::memory_resource* const was = pmr::set_default_resource(r);
        vp_assert(was == now, "M04: setting returns the previous resource");
        now = r == nullptr ? nd : r;
        vp_assert(pmr::get_default_resource() == now, "M04: later queries return the new resource");
        vp_assert(pmr::new_delete_resource() == nd, "M04: the heap resource is unaffected");
    }
    rs::init();
    pmr::monotonic_buffer_resource m;
    vp_assert(m.upstream_resource() == now, "M04: defaulted resources use the current default");
    pmr::monotonic_buffer_resource m2(vp_nondet_size("n"));
    vp_assert(m2.upstream_resource() == now, "M04: defaulted resources use the current default");
    char                           c[8];
    pmr::monotonic_buffer_resource m3(c, 8);
    vp_assert(m3.upstream_resource() == now, "M04: defaulted resources use the current default");
    pmr::set_default_resource(nullptr);
}
VP_CONTRACT(c_m04_new_delete) // M04
{
    rs::Mr                      x(1);
    rs::Mr                      y(2);
    pmr::memory_resource* const nd  = pmr::new_delete_resource();
    pmr::memory_resource*       now = nd;
    for (int i = 0; i < 3; ++i)
    {
        const unsigned              o   = vp_choose(3, "which");
        pmr::memory_resource* const r   = o == 0 ? nullptr : o == 1 ? &x : &y;
        pmr::memory_resource* const was = pmr::deviant::set_new_delete_resource(r);
        vp_assert(was == now, "M04: setting returns the previous resource");
        now = r == nullptr ? nd : r;
        vp_assert(pmr::new_delete_resource() == now, "M04: later queries return the new resource");
    }
    pmr::set_default_resource(&x);
    pmr::set_default_resource(nullptr);
    vp_assert(pmr::get_default_resource() == now, "M04: null restores the heap resource as the default");
    pmr::deviant::set_new_delete_resource(nullptr);
    pmr::set_default_resource(nullptr);
}
