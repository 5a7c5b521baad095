// Specification primitives.  Under the verifier they are intrinsics; with VP_NATIVE they are linked against
// vp_native.cpp, so that the same contract can be executed against the same code with concrete inputs.
#ifndef VP_HPP_INCLUDED
#define VP_HPP_INCLUDED

#include <cstddef>
#include <cstdint>

extern "C" {
bool          vp_nondet_bool(const char* name) noexcept;
std::uint8_t  vp_nondet_u8(const char* name) noexcept;
std::uint16_t vp_nondet_u16(const char* name) noexcept;
std::uint32_t vp_nondet_u32(const char* name) noexcept;
std::uint64_t vp_nondet_u64(const char* name) noexcept;
std::size_t   vp_nondet_size(const char* name) noexcept;
// case split over 0..n-1
unsigned vp_choose(unsigned n, const char* name) noexcept;
// case split over a condition
bool vp_split(bool c) noexcept;
void vp_assume(bool c) noexcept;
void vp_assert(bool c, const char* label) noexcept;
void vp_cover(const char* label) noexcept;
// names an index at which universally quantified facts about loops and memory are to be instantiated
void vp_hint(std::size_t v) noexcept;
void vp_hint_ptr(const void* p) noexcept;
// a fresh block, at an address that is `misalign` modulo 4096
void* vp_alloc(std::size_t size, std::size_t misalign) noexcept;
void* vp_alloc_aligned(std::size_t size, std::size_t align) noexcept;
void  vp_free(void* p) noexcept;
// arbitrary contents for a whole block
void vp_havoc(void* p, std::size_t size, const char* name) noexcept;
// [p, p+n) lies in one live object
bool vp_live(const void* p, std::size_t n) noexcept;
bool vp_same_object(const void* p, const void* q) noexcept;
std::size_t vp_size_of(const void* p) noexcept;
void vp_print(const char* s, std::uint64_t v) noexcept;
[[noreturn]] void vp_abandon() noexcept;
}

#define VP_CONTRACT(name) extern "C" void name()

// Whether the configuration has exceptions, and covers that only one kind of configuration can reach.
#if defined(__cpp_exceptions)
constexpr bool exceptions = true;
#    define VP_COVER_X(l) vp_cover(l)
#    define VP_COVER_N(l)
#else
constexpr bool exceptions = false;
#    define VP_COVER_X(l)
#    define VP_COVER_N(l) vp_cover(l)
#endif

#endif
