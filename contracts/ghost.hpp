// Ghost state shared by the contracts: storage blocks handed out by ghost allocators and memory resources, and element
// types whose life is tracked.
//
// One arbitrary element index J is watched.  Every block has a watched cell (the J-th element); its life state and value
// are ghost variables which the special members of Elem check and update.  J is arbitrary, so what is proved for the
// watched cell is proved for every cell.  Elements elsewhere in a block are not modelled (their values are arbitrary).
#ifndef VP_GHOST_HPP_INCLUDED
#define VP_GHOST_HPP_INCLUDED

#include "vp.hpp"

#include <cstddef>
#include <cstdint>
#include <exception>
#include <initializer_list>
#include <limits>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace gh
{

enum : std::uint8_t
{
    RAW   = 0,
    LIVE  = 1,
    MOVED = 2,
    DEAD  = 3
};

struct Rec
{
    char*         base;
    std::size_t   n;       // element count asked for
    std::size_t   esz;     // element size
    unsigned      owner;   // allocator identity
    bool          live;
    bool          watched;  // J < n
    std::uint8_t  st;
    std::uint32_t val;
};

constexpr unsigned NB = 6;

static Rec         rec[NB];
static unsigned    nrec;
static std::size_t J;
static bool        may_fail;      // allocations may fail
static bool        may_throw;     // element copies may throw
static bool        failed;        // some allocation failed
static bool        threw;         // some element operation threw
static bool        eq_false;      // some element comparison gave false
static unsigned    live_blocks;
static std::size_t limit;         // per-request limit reported by max_size()

inline void init()
{
    nrec = 0;
    live_blocks = 0;
    may_fail = may_throw = failed = threw = eq_false = false;
    J = vp_nondet_size("J");
    vp_assume(J < (std::size_t(1) << 40));
    vp_hint(J);
    limit = std::size_t(1) << 40;
}

inline void* allocate(unsigned owner, std::size_t n, std::size_t esz, std::size_t align)
{
    vp_assert(n <= limit, "V03/B02: no request exceeds the allocator's maximum");
    vp_assert(nrec < NB, "ghost: number of blocks");
    if (n > (std::size_t(1) << 40) || (may_fail && vp_nondet_bool("alloc_fails")))
    {
        failed = true;
        return nullptr;
    }
    Rec& r    = rec[nrec++];
    r.base    = static_cast<char*>(vp_alloc_aligned(n * esz, align));
    r.n       = n;
    r.esz     = esz;
    r.owner   = owner;
    r.live    = true;
    r.watched = J < n;
    r.st      = RAW;
    r.val     = 0;
    ++live_blocks;
    return r.base;
}

inline Rec* find(const void* p)
{
    for (unsigned i = 0; i < nrec; ++i)
    {
        if (rec[i].live && vp_same_object(p, rec[i].base))
        {
            return &rec[i];
        }
    }
    return nullptr;
}

inline void release(unsigned owner, void* p, std::size_t n)
{
    if (p == nullptr)
    {
        return;
    }
    Rec* const r = find(p);
    vp_assert(r != nullptr, "V02/B02: released block is one the allocator handed out and is still live");
    vp_assert(r->base == p, "V02/B02: block is released by its start");
    vp_assert(r->owner == owner, "V02/V04/B02: block is released to the allocator it came from");
    vp_assert(r->n == n, "V02/B02: block is released with the count it was requested with");
    vp_assert((!r->watched) || (r->st == RAW), "V02: elements are destroyed before their block is released");
    r->live = false;
    --live_blocks;
    vp_free(p);
}

// The cell an element operation addresses: a watched record, &other (unwatched cell of a block), or null (not in a block).
static Rec other;

inline Rec* cell(const void* p)
{
    Rec* const r = find(p);
    if (r == nullptr)
    {
        return nullptr;
    }
    const std::size_t off = static_cast<std::size_t>(static_cast<const char*>(p) - r->base);
    vp_assert(off < r->n * r->esz, "V02: element lies inside its block");
    if (off == J * r->esz)
    {
        return r;
    }
    vp_assert((off & (r->esz - 1U)) == 0, "V02: element sits in a slot");
    return &other;
}

struct alignas(8) Elem
{
    std::uint32_t v;    // used outside ghost blocks only
    std::uint32_t tag;  // likewise

    static std::uint32_t read(const Elem* p)
    {
        Rec* const r = cell(p);
        if (r == nullptr)
        {
            vp_assert(p->tag == LIVE || p->tag == MOVED, "V02: object read is alive");
            return (p->tag == LIVE) ? p->v : vp_nondet_u32("moved_value");
        }
        if (r == &other)
        {
            return vp_nondet_u32("elem_value");
        }
        vp_assert(r->st == LIVE || r->st == MOVED, "V02: element read is alive");
        return (r->st == LIVE) ? r->val : vp_nondet_u32("moved_value");
    }
    static void mark_moved(Elem* p)
    {
        Rec* const r = cell(p);
        if (r == nullptr)
        {
            p->tag = MOVED;
        }
        else if (r != &other)
        {
            r->st = MOVED;
        }
    }
    static void construct(Elem* p, std::uint32_t x)
    {
        Rec* const r = cell(p);
        if (r == nullptr)
        {
            p->tag = LIVE;
            p->v   = x;
        }
        else if (r != &other)
        {
            vp_assert(r->st == RAW, "V02: element is constructed once");
            r->st  = LIVE;
            r->val = x;
        }
    }
    static void assign(Elem* p, std::uint32_t x)
    {
        Rec* const r = cell(p);
        if (r == nullptr)
        {
            vp_assert(p->tag == LIVE || p->tag == MOVED, "V02: object assigned is alive");
            p->tag = LIVE;
            p->v   = x;
        }
        else if (r != &other)
        {
            vp_assert(r->st == LIVE || r->st == MOVED, "V02: element assigned is alive");
            r->st  = LIVE;
            r->val = x;
        }
    }
    static void destroy(Elem* p)
    {
        Rec* const r = cell(p);
        if (r == nullptr)
        {
            vp_assert(p->tag == LIVE || p->tag == MOVED, "V02: object destroyed is alive");
            p->tag = DEAD;
        }
        else if (r != &other)
        {
            vp_assert(r->st == LIVE || r->st == MOVED, "V02: element destroyed is alive");
            r->st = RAW;
        }
    }
    static void maybe_throw()
    {
#if defined(__cpp_exceptions)
        if (may_throw && vp_nondet_bool("elem_throws"))
        {
            threw = true;
            throw 42;
        }
#endif
    }

    Elem() { maybe_throw(); construct(this, 0); }
    explicit Elem(std::uint32_t x) { maybe_throw(); construct(this, x); }
    Elem(const Elem& o) { const auto x = read(&o); maybe_throw(); construct(this, x); }
    Elem(Elem&& o) noexcept { const auto x = read(&o); mark_moved(&o); construct(this, x); }
    Elem& operator=(const Elem& o) { const auto x = read(&o); maybe_throw(); assign(this, x); return *this; }
    Elem& operator=(Elem&& o) noexcept { const auto x = read(&o); mark_moved(&o); assign(this, x); return *this; }
    ~Elem() { destroy(this); }

    friend bool operator==(const Elem& a, const Elem& b)
    {
        const auto x = read(&a);
        const auto y = read(&b);
        const bool r = (x == y);
        if (!r)
        {
            eq_false = true;
        }
        return r;
    }
    friend bool operator!=(const Elem& a, const Elem& b) { return !(a == b); }
};

template <typename T, bool POCCA, bool POCMA, bool AE>
struct Alloc
{
    using value_type                             = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, POCCA>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, POCMA>;
    using is_always_equal                        = std::integral_constant<bool, AE>;
    template <typename U>
    struct rebind
    {
        using other = Alloc<U, POCCA, POCMA, AE>;
    };

    unsigned id;

    explicit Alloc(unsigned i) noexcept : id(i) {}
    T* allocate(std::size_t n)
    {
        T* const p = static_cast<T*>(gh::allocate(AE ? 0U : id, n, sizeof(T), alignof(T)));
#if defined(__cpp_exceptions)
        if (p == nullptr)
        {
            throw std::bad_alloc();
        }
#endif
        return p;
    }
    void        deallocate(T* p, std::size_t n) noexcept { gh::release(AE ? 0U : id, p, n); }
    std::size_t max_size() const noexcept { return limit; }
    friend bool operator==(const Alloc& a, const Alloc& b) noexcept { return AE || a.id == b.id; }
    friend bool operator!=(const Alloc& a, const Alloc& b) noexcept { return !(a == b); }
};

}  // namespace gh

#endif
