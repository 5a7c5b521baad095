// Contracts of the memory-resource deleters and factories.
// VP-CONFIGS: 14x 14n
#include "res.hpp"

#include "cetl/pf17/memory_resource.hpp"
#include "cetl/pmr/interface_ptr.hpp"
#include "cetl/pmr/memory.hpp"

namespace
{

namespace pmr = cetl::pf17::pmr;

static unsigned built, gone;
static void*    where;
static bool     may_throw, thrown;

// object whose constructor may throw
template <std::size_t A>
struct alignas(A) Thing
{
    std::uint32_t v;
    char          more[44];
    Thing*        self;
    Thing(std::uint32_t x, std::uint32_t y)
        : v(x + y)
        , self(this)
    {
        vp_assert(where == nullptr, "M05: constructed exactly once");
#if defined(__cpp_exceptions)
        if (may_throw && vp_nondet_bool("ctor_throws"))
        {
            thrown = true;
            throw 7;
        }
#endif
        ++built;
        where = this;
    }
    ~Thing()
    {
        vp_assert(where == this && self == this, "M05: destroyed exactly once, as built");
        where = nullptr;
        ++gone;
    }
    Thing(const Thing&)            = delete;
    Thing& operator=(const Thing&) = delete;
};

struct Pad
{
    virtual ~Pad() = default;
    std::uint64_t pad{5};
};
struct Iface
{
    virtual std::uint32_t value() const = 0;

protected:
    ~Iface() = default;
};
struct Other
{
    virtual std::uint32_t other() const = 0;

protected:
    ~Other() = default;
};
// the interfaces are not at the start of the object
struct Impl final : Pad, Iface, Other
{
    Impl(std::uint32_t x, std::uint32_t y)
        : t(x, y)
    {
    }
    std::uint32_t value() const override { return t.v; }
    std::uint32_t other() const override { return t.v + 1; }
    Thing<8>      t;
};

void init()
{
    rs::init();
    rs::may_fail = true;
    built = gone = 0;
    where        = nullptr;
    may_throw    = true;
    thrown       = false;
}

void done()
{
    vp_assert(where == nullptr && built == gone, "M05: destroyed exactly once");
    vp_assert(rs::live_blocks == 0, "M05: the memory goes back to its resource");
}

template <typename T>
void factory(bool give_away)
{
    init();
    rs::Mr                        mr(1);
    pmr::polymorphic_allocator<T> a(&mr);
    const std::uint32_t           x = vp_nondet_u32("x");
    const std::uint32_t           y = vp_nondet_u32("y");
#if defined(__cpp_exceptions)
    try
#endif
    {
        auto p = cetl::pmr::Factory::make_unique(a, x, y);
        if (p == nullptr)
        {
            VP_COVER_N("no memory");
            vp_assert(rs::failed && built == 0, "M05: without memory nothing is constructed");
        }
        else
        {
            vp_cover("made");
            vp_assert(rs::gets == 1 && rs::last_size == sizeof(T) && rs::last_align == alignof(T), "M05: memory of the right size and alignment");
            vp_assert(rs::last_ptr == p.get() && built == 1 && where == p.get(), "M05: constructed in that memory");
            vp_assert(p->v == x + y, "M05: arguments are forwarded");
            if (give_away)
            {
                auto q = std::move(p);
                vp_assert(p == nullptr && gone == 0 && q->v == x + y, "M05: moving the owner keeps the object");
                q.reset();
                vp_assert(gone == 1, "M05: destroyed exactly once");
            }
        }
    }
#if defined(__cpp_exceptions)
    catch (int)
    {
        VP_COVER_X("constructor throws");
        vp_assert(thrown && built == 0, "M05: the exception comes from the constructor");
    } catch (const std::bad_alloc&)
    {
        VP_COVER_X("no memory thrown");
        vp_assert(rs::failed && built == 0, "M05: without memory nothing is constructed");
    }
#endif
    done();
}

template <typename I, typename T>
void interface(std::uint32_t (*value)(I&))
{
    init();
    rs::Mr                        mr(1);
    pmr::polymorphic_allocator<T> a(&mr);
    const std::uint32_t           x = vp_nondet_u32("x");
    const std::uint32_t           y = vp_nondet_u32("y");
#if defined(__cpp_exceptions)
    try
#endif
    {
        cetl::pmr::InterfacePtr<I> q;
        {
            auto p = cetl::pmr::InterfaceFactory::make_unique<I>(a, x, y);
            if (p == nullptr)
            {
                VP_COVER_N("no memory");
                vp_assert(rs::failed && built == 0, "M05: without memory nothing is constructed");
            }
            else
            {
                vp_cover("made");
                vp_assert(rs::gets == 1 && rs::last_size == sizeof(T) && rs::last_align == alignof(T), "M05: memory of the right size and alignment");
                vp_assert(vp_same_object(rs::last_ptr, p.get()) && built == 1, "M05: constructed in that memory");
                vp_assert(value(*p) == x + y, "M05: arguments are forwarded");
            }
            switch (vp_choose(3, "then"))
            {
            case 0:
                q = std::move(p);
                vp_assert(p == nullptr && gone == 0, "M05: moving the owner keeps the object");
                break;
            case 1: {
                cetl::pmr::InterfacePtr<I> r(std::move(p));
                vp_assert(p == nullptr && gone == 0, "M05: moving the owner keeps the object");
                q.swap(r);
                break;
            }
            default:
                break;
            }
        }
        if (q != nullptr)
        {
            vp_assert(value(*q) == x + y && gone == 0, "M05: moving the owner keeps the object");
        }
    }
#if defined(__cpp_exceptions)
    catch (int)
    {
        VP_COVER_X("constructor throws");
        vp_assert(thrown && built == 0, "M05: the exception comes from the constructor");
    } catch (const std::bad_alloc&)
    {
        VP_COVER_X("no memory thrown");
        vp_assert(rs::failed && built == 0, "M05: without memory nothing is constructed");
    }
#endif
    done();
}

std::uint32_t value_of(Iface& i) { return i.value(); }
std::uint32_t other_of(Other& i) { return i.other() - 1; }
std::uint32_t itself_of(Thing<16>& i) { return i.v; }

}  // namespace

VP_CONTRACT(c_m05_factory) // M05
{
    factory<Thing<8>>(false);
}
VP_CONTRACT(c_m05_factory_moved) // M05
{
    factory<Thing<64>>(true);
}
VP_CONTRACT(c_m05_interface) // M05
{
    interface<Iface, Impl>(&value_of);
}
VP_CONTRACT(c_m05_second_interface) // M05
{
    interface<Other, Impl>(&other_of);
}
VP_CONTRACT(c_m05_itself) // M05
{
    interface<Thing<16>, Thing<16>>(&itself_of);
}
VP_CONTRACT(c_m05_deleter) // M05
{
    init();
    using D             = cetl::pmr::MemoryResourceDeleter<pmr::memory_resource>;
    const std::size_t n = vp_nondet_size("n");
    const std::size_t a = rs::any_align("align");
    rs::Mr            mr(1);
    rs::Mr            mr2(2);
    vp_assume(n > 0 && n <= rs::BIG);
    rs::may_fail = false;
    void* const p = mr.allocate(n, a);
    {
        std::unique_ptr<void, D> u(p, D(&mr, n, a));
        vp_assert(u.get_deleter().size() == n && u.get_deleter().alignment() == a && u.get_deleter().resource() == &mr, "M05: the deleter knows its block");
        switch (vp_choose(5, "then"))
        {
        case 0: break;
        case 1: {
            std::unique_ptr<void, D> v(std::move(u));
            vp_assert(u.get() == nullptr && v.get() == p && v.get_deleter().size() == n && v.get_deleter().alignment() == a, "M05: moving the owner keeps the block");
            break;
        }
        case 2: {
            void* const              q = mr2.allocate(8, 8);
            std::unique_ptr<void, D> v(q, D(&mr2, 8, 8));
            v = std::move(u);
            vp_assert(v.get() == p && v.get_deleter().size() == n && v.get_deleter().resource() == &mr, "M05: moving the owner keeps the block");
            vp_assert(rs::live_blocks == 1, "M05: the memory goes back to its resource");
            break;
        }
        case 3: {
            std::unique_ptr<void, D>& same = u;
            u                              = std::move(same);
            vp_assert(u.get() == nullptr || u.get_deleter().resource() == &mr, "M05: moving an owner to itself keeps the block");
            break;
        }
        default: {
            std::unique_ptr<void, D> v(std::move(u));
            std::unique_ptr<void, D> w(std::move(v));
            u = std::move(w);
            break;
        }
        }
    }
    vp_assert(rs::live_blocks == 0, "M05: the memory goes back to its resource");
}
