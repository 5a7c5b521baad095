// Contracts of the run-time type queries.
// VP-CONFIGS: 14x 14n 20x
#include "vp.hpp"

#include "cetl/rtti.hpp"

namespace
{

using cetl::is_instance_of;
using cetl::rtti_cast;
using cetl::rtti_helper;
using cetl::type_id;
using cetl::type_id_type;
using cetl::type_id_value;

// A   B   E        a hierarchy of declared ancestry:
//  \ / \   \       C from A and B, D from C and E, F from B, G from F and A
//   C   F   |
//    \   \  |
//     D---\-+
struct A : rtti_helper<type_id_type<0x0A>>
{
    std::uint32_t a = 1;
};
struct B : rtti_helper<type_id_type<0x0B, 0x01>>
{
    std::uint64_t b[3] = {2, 2, 2};
};
struct E : rtti_helper<type_id_type<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x0E>>
{
    std::uint8_t e = 3;
};
struct C : rtti_helper<type_id_type<0x0C>, A, B>
{
    std::uint32_t c = 4;
};
struct D : rtti_helper<type_id_type<0x0D>, C, E>
{
    std::uint32_t d = 5;
};
struct F : rtti_helper<type_id_type<0x0B, 0x02>, B>
{
    std::uint32_t f = 6;
};
struct G : rtti_helper<type_id_type<0x10>, F, A>
{
    std::uint32_t g = 7;
};

// by hand
struct H : public virtual cetl::rtti
{
    static constexpr type_id _get_type_id_() noexcept { return cetl::type_id_type_value<type_id_type<0x0F, 1, 2, 3>>(); }
    void*       _cast_(const type_id& id) & noexcept override { return (id == _get_type_id_()) ? static_cast<void*>(this) : nullptr; }
    const void* _cast_(const type_id& id) const& noexcept override { return (id == _get_type_id_()) ? static_cast<const void*>(this) : nullptr; }
};
struct I : rtti_helper<type_id_type<0x11>, A, H>
{
    std::uint32_t i = 8;
};

type_id any_id()
{
    type_id id{};
    vp_havoc(&id, sizeof(id), "id");
    return id;
}

bool same(const type_id& x, const type_id& y)
{
    bool all = true;
    for (unsigned i = 0; i < 16; ++i)
    {
        all &= x[i] == y[i];
    }
    return all;
}

// the answer for the identifier of T is exactly `at` (null: not an ancestor)
template <typename T>
struct Q
{
    static bool is(const type_id& id) { return same(id, type_id_value<T>); }
};

template <typename From, typename T>
void cast(From& obj, const T* at)
{
    const From& cobj = obj;
    auto        p    = rtti_cast<T*>(&obj);
    auto        q    = rtti_cast<T*>(&cobj);
    auto        r    = rtti_cast<const T*>(&obj);
    static_assert(std::is_same<decltype(p), T*>::value, "");
    static_assert(std::is_same<decltype(q), const T*>::value, "");
    static_assert(std::is_same<decltype(r), const T*>::value, "");
    vp_assert(p == at && q == at && r == at, "R01: casting gives the very sub-object, or nothing");
    vp_assert(is_instance_of<T>(obj) == (at != nullptr) && is_instance_of(obj, type_id_value<T>) == (at != nullptr), "R01: instance exactly of the type and its ancestors");
    vp_assert(rtti_cast<T*>(static_cast<From*>(nullptr)) == nullptr && rtti_cast<T*>(static_cast<const From*>(nullptr)) == nullptr, "R01: null stays null");
}

template <typename From>
void casts(From& obj, const A* a, const B* b, const C* c, const D* d, const E* e, const F* f, const G* g, const H* h, const I* i)
{
    cast(obj, a);
    cast(obj, b);
    cast(obj, c);
    cast(obj, d);
    cast(obj, e);
    cast(obj, f);
    cast(obj, g);
    cast(obj, h);
    cast(obj, i);
}

// the answer for any identifier whatsoever
template <typename From>
void answers(From& obj, const void* a, const void* b, const void* c, const void* d, const void* e, const void* f, const void* g, const void* h, const void* i)
{
    const type_id id   = any_id();
    const void*   want = Q<A>::is(id) ? a : Q<B>::is(id) ? b : Q<C>::is(id) ? c : Q<D>::is(id) ? d : Q<E>::is(id) ? e : Q<F>::is(id) ? f : Q<G>::is(id) ? g : Q<H>::is(id) ? h : Q<I>::is(id) ? i : nullptr;
    vp_assert(obj._cast_(id) == want && static_cast<const From&>(obj)._cast_(id) == want, "R01: any identifier gives the very sub-object, or nothing");
    vp_assert(is_instance_of(obj, id) == (want != nullptr), "R01: instance exactly of the type and its ancestors");
}

}  // namespace

VP_CONTRACT(c_rtti_leaf) // R01
{
    E x;
    casts(x, nullptr, nullptr, nullptr, nullptr, &x, nullptr, nullptr, nullptr, nullptr);
    answers(x, nullptr, nullptr, nullptr, nullptr, &x, nullptr, nullptr, nullptr, nullptr);
}
VP_CONTRACT(c_rtti_two_bases) // R01
{
    C  x;
    A& xa = x;
    B& xb = x;
    casts(x, &xa, &xb, &x, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
    casts(xa, &xa, &xb, &x, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
    casts(xb, &xa, &xb, &x, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
    answers(x, &xa, &xb, &x, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
    answers(xb, &xa, &xb, &x, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
}
VP_CONTRACT(c_rtti_deep) // R01
{
    D  x;
    A& xa = x;
    B& xb = x;
    C& xc = x;
    E& xe = x;
    casts(x, &xa, &xb, &xc, &x, &xe, nullptr, nullptr, nullptr, nullptr);
    casts(xe, &xa, &xb, &xc, &x, &xe, nullptr, nullptr, nullptr, nullptr);
    casts(xb, &xa, &xb, &xc, &x, &xe, nullptr, nullptr, nullptr, nullptr);
    answers(x, &xa, &xb, &xc, &x, &xe, nullptr, nullptr, nullptr, nullptr);
    answers(xa, &xa, &xb, &xc, &x, &xe, nullptr, nullptr, nullptr, nullptr);
}
VP_CONTRACT(c_rtti_other_branch) // R01
{
    G  x;
    A& xa = x;
    B& xb = x;
    F& xf = x;
    casts(x, &xa, &xb, nullptr, nullptr, nullptr, &xf, &x, nullptr, nullptr);
    casts(xa, &xa, &xb, nullptr, nullptr, nullptr, &xf, &x, nullptr, nullptr);
    answers(x, &xa, &xb, nullptr, nullptr, nullptr, &xf, &x, nullptr, nullptr);
    answers(xb, &xa, &xb, nullptr, nullptr, nullptr, &xf, &x, nullptr, nullptr);
    B y;
    casts(y, nullptr, &y, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
}
VP_CONTRACT(c_rtti_by_hand) // R01
{
    I  x;
    A& xa = x;
    H& xh = x;
    casts(x, &xa, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, &xh, &x);
    casts(xh, &xa, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, &xh, &x);
    answers(x, &xa, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, &xh, &x);
}
VP_CONTRACT(c_rtti_ids) // R01
{
    const type_id a    = type_id_value<A>;
    const type_id e    = type_id_value<E>;
    const type_id full = cetl::type_id_type_value<type_id_type<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>();
    const type_id none = type_id_value<void>;
    for (unsigned i = 0; i < 16; ++i)
    {
        vp_assert(a[i] == (i == 0 ? 0x0A : 0) && e[i] == (i == 15 ? 0x0E : 0) && full[i] == i + 1 && none[i] == 0, "R01: identifiers are the declared bytes, padded with zeros");
    }
}
