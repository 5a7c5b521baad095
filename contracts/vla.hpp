// Shared by the contracts of VariableLengthArray<T> (T other than bool).
#ifndef VP_VLA_HPP_INCLUDED
#define VP_VLA_HPP_INCLUDED

#include "ghost.hpp"
#include "cetl/variable_length_array.hpp"

using gh::Elem;

template <typename T>
struct Kind;

template <>
struct Kind<Elem>
{
    static std::uint32_t get(const Elem& e) { return Elem::read(&e); }
    static void          fill(gh::Rec* r, std::uint32_t val)
    {
        r->val = val;
    }
    static void check(const gh::Rec* r, bool alive)
    {
        if (alive)
        {
            vp_assert(r->st == gh::LIVE, "V01/V02: elements below the size are alive");
        }
        else
        {
            vp_assert(r->st == gh::RAW, "V02: cells at or above the size hold no element");
        }
    }
};

template <>
struct Kind<std::uint32_t>
{
    static std::uint32_t get(const std::uint32_t& e) { return e; }
    static void          fill(gh::Rec* r, std::uint32_t val)
    {
        vp_havoc(r->base, r->n * r->esz, "content");
        vp_assume(reinterpret_cast<std::uint32_t*>(r->base)[gh::J] == val);
    }
    static void check(const gh::Rec*, bool) {}
};

// The abstract view of an array: its size and the value at the watched index.
struct View
{
    std::size_t   n;
    std::uint32_t val;
};

// An arbitrary reachable array: capacity and size are arbitrary within the maximum, and so are the elements.
template <typename V>
View make(V& v, const char* cap_name, const char* n_name)
{
    using T = typename V::value_type;
    View              p;
    const std::size_t cap = vp_nondet_size(cap_name);
    p.n                   = vp_nondet_size(n_name);
    vp_assume(cap <= v.max_size());
    vp_assume(p.n <= cap);
    v.reserve(cap);
    v.resize(p.n);
    p.val = vp_nondet_u32("val");
    vp_assert(v.size() == p.n, "V01: size after resize");
    vp_assert(v.capacity() >= p.n, "V03: capacity covers size");
    if (gh::J < p.n)
    {
        Kind<T>::fill(gh::find(v.data()), p.val);
    }
    return p;
}

// The representation invariant, through the public observers and the ghost state.
template <typename V>
void invariant(const V& v)
{
    using T = typename V::value_type;
    vp_assert(v.size() <= v.capacity(), "V03: size within capacity");
    vp_assert(v.capacity() <= v.max_size(), "V03: capacity within maximum");
    vp_assert(v.empty() == (v.size() == 0), "V01: empty() agrees with size()");
    gh::Rec* const r = (v.data() == nullptr) ? nullptr : gh::find(v.data());
    vp_assert((v.capacity() == 0) || ((r != nullptr) && (r->base == reinterpret_cast<const char*>(v.data())) &&
                                      (r->n == v.capacity())),
              "V02: the array owns a live block of its capacity");
    vp_assert((v.size() == 0) || ((v.begin() == v.data()) && (v.end() == v.data() + v.size())),
              "V01: iterators delimit the elements");
    if (r != nullptr && r->watched)
    {
        Kind<T>::check(r, gh::J < v.size());
    }
}

template <typename V>
std::uint32_t at(const V& v)
{
    return Kind<typename V::value_type>::get(v[gh::J]);
}

// Runs an operation that may be refused; returns true if it was.
template <typename F>
bool refusable(F f, bool& length)
{
    length = false;
#if defined(__cpp_exceptions)
    try
    {
        f();
    } catch (const std::length_error&)
    {
        length = true;
        return true;
    } catch (const std::bad_alloc&)
    {
        vp_assert(gh::failed, "V03: bad_alloc only when the allocator failed");
        return true;
    }
#else
    f();
#endif
    return false;
}

#endif
