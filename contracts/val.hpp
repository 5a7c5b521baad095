// Values with a tracked life, whose operations may throw.
#ifndef VP_VAL_HPP_INCLUDED
#define VP_VAL_HPP_INCLUDED

#include "vp.hpp"

#include <cstddef>
#include <cstdint>
#include <utility>

namespace vv
{

static unsigned live;      // objects alive
static bool     may_throw; // value operations may throw
static bool     thrown;    // one did
static unsigned copies, moves, copy_assigns, move_assigns;

inline void init()
{
    live      = 0;
    may_throw = false;
    thrown    = false;
    copies = moves = copy_assigns = move_assigns = 0;
}

inline void maybe_throw()
{
#if defined(__cpp_exceptions)
    if (may_throw && vp_nondet_bool("throws"))
    {
        thrown = true;
        throw 7;
    }
#endif
}

constexpr std::uint32_t MOVED = 0xFFFFFFFFU;

// throws for certain when a value is made from it
struct Bomb
{};

// N: a different type (and size) per N; Quiet: moving never throws
template <unsigned N, std::size_t Extra = 0, bool Quiet = false>
struct Val
{
    const void*   me;
    std::uint32_t v;
    unsigned char extra[Extra + 4];

    explicit Val(std::uint32_t x)
        : v(x)
    {
        maybe_throw();
        born();
    }
    Val(std::uint32_t x, std::uint32_t y)
        : v(x + y)
    {
        maybe_throw();
        born();
    }
    Val(const Val& o)
        : v(o.read())
    {
        maybe_throw();
        born();
        ++copies;
    }
    Val(Val&& o) noexcept(Quiet)
        : v(o.read())
    {
        quietly();
        o.v = MOVED;
        born();
        ++moves;
    }
    Val& operator=(const Val& o)
    {
        read();
        const std::uint32_t x = o.read();
        maybe_throw();
        v = x;
        ++copy_assigns;
        return *this;
    }
    Val& operator=(Val&& o) noexcept(Quiet)
    {
        read();
        const std::uint32_t x = o.read();
        quietly();
        o.v = MOVED;
        v   = x;
        ++move_assigns;
        return *this;
    }
    ~Val()
    {
        read();
        me = nullptr;
        v  = 0xDEADU;
        --live;
    }
    std::uint32_t read() const
    {
        vp_assert(me == this, "a value is used or destroyed only while it is alive");
        return v;
    }

#if defined(__cpp_exceptions)
    explicit Val(Bomb)
    {
        throw 8;
    }
#endif

private:
    static void quietly() noexcept(Quiet)
    {
        if (!Quiet)
        {
            maybe_throw();
        }
    }
    void born()
    {
        me = this;
        ++live;
    }
};

}  // namespace vv

#endif
