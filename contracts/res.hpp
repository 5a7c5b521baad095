// Ghost memory resources: upstreams that record every block they hand out and check every block they get back.
#ifndef VP_RES_HPP_INCLUDED
#define VP_RES_HPP_INCLUDED

#include "vp.hpp"

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <new>

#include "cetl/pf17/memory_resource.hpp"

namespace rs
{

constexpr std::size_t BIG = std::size_t(1) << 40;

struct Blk
{
    char*       base;
    std::size_t size;
    std::size_t align;
    unsigned    owner;
    bool        live;
};

constexpr unsigned NB = 8;

static Blk         blk[NB];
static unsigned    nblk;
static unsigned    live_blocks;
static bool        may_fail;
static bool        failed;
static unsigned    gets;       // requests since the last reset()
static unsigned    puts_;      // releases since the last reset()
static unsigned    resizes;    // resizes since the last reset()
static std::size_t last_size;
static std::size_t last_align;
static void*       last_ptr;

inline void reset()
{
    gets = puts_ = resizes = 0;
    failed = false;
}

inline void init()
{
    nblk = live_blocks = 0;
    may_fail = false;
    reset();
}

inline void* get(unsigned owner, std::size_t size, std::size_t align)
{
    vp_assert(nblk < NB, "ghost: number of blocks");
    vp_assert(align != 0 && (align & (align - 1)) == 0, "requested alignment is a power of two");
    ++gets;
    last_size  = size;
    last_align = align;
    if (size > BIG || (may_fail && vp_nondet_bool("alloc_fails")))
    {
        failed   = true;
        last_ptr = nullptr;
        return nullptr;
    }
    Blk& b   = blk[nblk++];
    b.base   = static_cast<char*>(vp_alloc_aligned(size, align));
    b.size   = size;
    b.align  = align;
    b.owner  = owner;
    b.live   = true;
    last_ptr = b.base;
    ++live_blocks;
    return b.base;
}

inline Blk* find(const void* p)
{
    for (unsigned i = 0; i < nblk; ++i)
    {
        if (blk[i].live && vp_same_object(p, blk[i].base))
        {
            return &blk[i];
        }
    }
    return nullptr;
}

inline void put(unsigned owner, void* p, std::size_t size, std::size_t align)
{
    if (p == nullptr)
    {
        return;
    }
    ++puts_;
    Blk* const b = find(p);
    vp_assert(b != nullptr, "released block is one the resource handed out and is still live");
    vp_assert(b->base == p, "block is released by its start");
    vp_assert(b->owner == owner, "block is released to the resource it came from");
    vp_assert(b->size == size, "block is released with the size it was requested with");
    vp_assert(b->align == align, "block is released with the alignment it was requested with");
    b->live = false;
    --live_blocks;
    vp_free(p);
}

inline void* check(void* p)
{
#if defined(__cpp_exceptions)
    if (p == nullptr)
    {
        throw std::bad_alloc();
    }
#endif
    return p;
}

// resize by moving: the old block goes away, the new one has its content
inline void* resize(unsigned owner, void* p, std::size_t old_size, std::size_t size, std::size_t align)
{
    ++resizes;
    if (p != nullptr)
    {
        Blk* const b = find(p);
        vp_assert(b != nullptr && b->base == p, "resized block is one the resource handed out and is still live");
        vp_assert(b->size == old_size, "block is resized with the size it was requested with");
        vp_assert(b->owner == owner, "block is resized by the resource it came from");
        align = b->align;
    }
    if (vp_nondet_bool("resize_fails"))
    {
        return nullptr;
    }
    const unsigned g = gets;
    void* const    q = get(owner, size, align);
    gets             = g;
    if (q != nullptr && p != nullptr)
    {
        const unsigned u = puts_;
        std::memcpy(q, p, old_size < size ? old_size : size);
        put(owner, p, old_size, align);
        puts_ = u;
    }
    return q;
}

// an upstream that is not a memory_resource
struct Plain
{
    unsigned id;
    void*    allocate(std::size_t size, std::size_t align) { return check(get(id, size, align)); }
    void     deallocate(void* p, std::size_t size, std::size_t align) { put(id, p, size, align); }
};

class Mr : public cetl::pf17::pmr::memory_resource
{
public:
    explicit Mr(unsigned i, bool resizes = false, std::size_t max = std::numeric_limits<std::size_t>::max())
        : id(i)
        , can_resize(resizes)
        , max_(max)
    {
    }
    unsigned    id;
    bool        can_resize;
    std::size_t max_;
    bool        throws{false};  // resizing may throw

private:
    void* do_allocate(std::size_t size, std::size_t align) override
    {
        return check(size > max_ ? (++gets, failed = true, nullptr) : get(id, size, align));
    }
    void  do_deallocate(void* p, std::size_t size, std::size_t align) override { put(id, p, size, align); }
    bool  do_is_equal(const cetl::pf17::pmr::memory_resource& rhs) const noexcept override { return this == &rhs; }
    std::size_t do_max_size() const noexcept override { return max_; }
    void* do_reallocate(void* p, std::size_t old_size, std::size_t size, std::size_t align) override
    {
#if defined(__cpp_exceptions)
        if (throws && vp_nondet_bool("resize_throws"))
        {
            ++resizes;
            failed = true;
            throw std::bad_alloc();
        }
#endif
        return can_resize ? resize(id, p, old_size, size, align) : nullptr;
    }
};

inline std::size_t any_align(const char* name)
{
    return std::size_t(1) << vp_choose(13, name);
}

inline std::size_t some_align(const char* name)
{
    return vp_choose(2, name) == 0 ? 1 : 64;
}

inline bool aligned(const void* p, std::size_t a)
{
    return (reinterpret_cast<std::uintptr_t>(p) & (a - 1)) == 0;
}

}  // namespace rs

#endif
