// Contracts of the string view.
// VP-CONFIGS: 14x 14n 20x
#include "vp.hpp"

#include "cetl/pf17/string_view.hpp"

#include <cstring>

namespace
{

using cetl::pf17::basic_string_view;

// an arbitrary text in a block of exactly its size
template <typename C>
struct Text
{
    C*          p;
    std::size_t n;

    Text(const char* n_name, const char* name)
        : n(vp_nondet_size(n_name))
    {
        vp_assume(n <= (std::size_t(1) << 40U));
        p = static_cast<C*>(vp_alloc_aligned(n * sizeof(C), alignof(C)));
        vp_havoc(p, n * sizeof(C), name);
    }
    basic_string_view<C> view() const { return basic_string_view<C>(p, n); }
};

// the view denotes the n characters from p on
template <typename C>
void denotes(const basic_string_view<C>& s, const C* p, std::size_t n)
{
    vp_assert(s.data() == p, "S01: starts at the named character");
    vp_assert(s.size() == n && s.length() == n, "S01: has the named length");
    vp_assert(s.empty() == (n == 0), "S01: empty exactly when it has no characters");
    vp_assert(s.begin() == p && s.end() == p + n && s.cbegin() == p && s.cend() == p + n, "S01: iterates from the first character to the end");
    if (n > 0)
    {
        vp_assert(&s.front() == p && &s.back() == p + (n - 1), "S01: access gives the named character");
        const std::size_t i = vp_nondet_size("i");
        vp_assume(i < n);
        vp_assert(&s[i] == p + i && &s.at(i) == p + i, "S01: access gives the named character");
        vp_assert(vp_live(&s[i], sizeof(C)), "S01: stays in the viewed range");
    }
}

template <typename C>
void observe()
{
    const Text<C> t("n", "text");
    denotes(t.view(), t.p, t.n);
    vp_assert(t.view().max_size() >= (std::size_t(1) << 40U), "S01: the greatest length is not understated");
    vp_assert(t.view().max_size() <= static_cast<std::size_t>(-1) / sizeof(C), "S01: the greatest length fits the address space");
    denotes(basic_string_view<C>(), static_cast<const C*>(nullptr), 0);
#if defined(__cpp_exceptions)
    const std::size_t i = vp_nondet_size("i_beyond");
    vp_assume(i >= t.n);
    bool refused = false;
    try { (void) t.view().at(i); } catch (const std::out_of_range&) { refused = true; }
    vp_assert(refused, "S01: positions beyond the end are refused");
#endif
}

template <typename C>
void slice()
{
    const Text<C>        t("n", "text");
    basic_string_view<C> v     = t.view();
    const std::size_t    pos   = vp_nondet_size("pos");
    const std::size_t    count = vp_nondet_size("count");
    if (pos > t.n)
    {
#if defined(__cpp_exceptions)
        unsigned refused = 0;
        try { (void) v.substr(pos, count); } catch (const std::out_of_range&) { ++refused; }
        try { (void) v.substr(pos); } catch (const std::out_of_range&) { ++refused; }
        vp_assert(refused == 2, "S01: positions beyond the end are refused");
        vp_cover("substring refused");
#endif
        return;
    }
    denotes(v.substr(pos, count), t.p + pos, count < t.n - pos ? count : t.n - pos);
    denotes(v.substr(pos), t.p + pos, t.n - pos);
    denotes(v.substr(), t.p, t.n);
    denotes(v, t.p, t.n);
    if (count <= t.n - pos)
    {
        vp_cover("removed from both ends");
        v.remove_prefix(pos);
        denotes(v, t.p + pos, t.n - pos);
        v.remove_suffix(count);
        denotes(v, t.p + pos, t.n - pos - count);
    }
}

template <typename C>
void exchange()
{
    const Text<C>        t("n", "text");
    const Text<C>        u("m", "other");
    basic_string_view<C> a = t.view();
    basic_string_view<C> b = u.view();
    a.swap(b);
    denotes(a, u.p, u.n);
    denotes(b, t.p, t.n);
    cetl::pf17::swap(a, b);
    denotes(a, t.p, t.n);
    denotes(b, u.p, u.n);
    a.swap(a);
    denotes(a, t.p, t.n);
    b = a;
    denotes(b, t.p, t.n);
}

// copying out: exactly the named window, nothing else in the destination
template <typename C>
void copy_out()
{
    const Text<C>              t("n", "text");
    const Text<C>              d("d", "dest");
    const basic_string_view<C> v     = t.view();
    const std::size_t          pos   = vp_nondet_size("pos");
    const std::size_t          count = vp_nondet_size("count");
    const std::size_t          k     = vp_nondet_size("k");
    vp_assume(k < d.n);
    vp_hint(k);
    const C old = d.p[k];
    if (pos > t.n)
    {
#if defined(__cpp_exceptions)
        bool refused = false;
        try { (void) v.copy(d.p, count, pos); } catch (const std::out_of_range&) { refused = true; }
        vp_assert(refused, "S01: positions beyond the end are refused");
        vp_assert(d.p[k] == old, "S01: a refused copy writes nothing");
        vp_cover("copy refused");
#endif
        return;
    }
    const std::size_t want = count < t.n - pos ? count : t.n - pos;
    vp_assume(want <= d.n);
    const std::size_t got = v.copy(d.p, count, pos);
    vp_assert(got == want, "S01: copies the named window clipped to the end");
    vp_assert(d.p[k] == (k < want ? t.p[pos + k] : old), "S01: copies the named window and nothing else");
}

// what is found is an occurrence
template <typename C>
void find_char_is_occurrence()
{
    const Text<C>              t("n", "text");
    const basic_string_view<C> v   = t.view();
    const C                    ch  = static_cast<C>(vp_nondet_u32("ch"));
    const std::size_t          pos = vp_nondet_size("pos");
    const std::size_t          r   = v.find(ch, pos);
    if (r != basic_string_view<C>::npos)
    {
        vp_cover("character found");
        vp_assert(pos <= r && r < t.n, "S01: found in the searched range");
        vp_assert(t.p[r] == ch, "S01: the found character is the wanted one");
    }
}
// an occurrence is found, unless there is one before it
template <typename C>
void find_char_is_first(bool from_start)
{
    const Text<C>              t("n", "text");
    const basic_string_view<C> v   = t.view();
    const C                    ch  = static_cast<C>(vp_nondet_u32("ch"));
    const std::size_t          pos = from_start ? 0 : vp_nondet_size("pos");
    const std::size_t          k   = vp_nondet_size("k");
    vp_assume(pos <= k && k < t.n && t.p[k] == ch);
    vp_hint(k * sizeof(C));
    const std::size_t r = from_start ? v.find(ch) : v.find(ch, pos);
    vp_assert(r <= k, "S01: a character that occurs is found, at its first occurrence");
}

template <typename C>
void find_is_occurrence()
{
    const Text<C>              t("n", "text");
    const Text<C>              s("m", "pattern");
    const basic_string_view<C> v   = t.view();
    const std::size_t          pos = vp_nondet_size("pos");
    const std::size_t          j   = vp_nondet_size("j");
    vp_assume(j < s.n);
    vp_hint(j * sizeof(C));
    const std::size_t r = v.find(s.view(), pos);
    if (r != basic_string_view<C>::npos)
    {
        vp_cover("text found");
        vp_assert(pos <= r && r <= t.n && s.n <= t.n - r, "S01: found in the searched range");
        vp_assert(t.p[r + j] == s.p[j], "S01: the found text is the wanted one");
    }
}
template <typename C>
void find_is_first()
{
    const Text<C>              t("n", "text");
    const Text<C>              s("m", "pattern");
    const basic_string_view<C> v   = t.view();
    const std::size_t          pos = vp_nondet_size("pos");
    const std::size_t          k   = vp_nondet_size("k");
    vp_assume(pos <= k && k <= t.n && s.n <= t.n - k);
    std::memcpy(t.p + k, s.p, s.n * sizeof(C));
    vp_hint(k * sizeof(C));
    const std::size_t r = v.find(s.view(), pos);
    vp_assert(r <= k, "S01: a text that occurs is found, at its first occurrence");
    if (s.n == 0)
    {
        vp_cover("empty pattern");
        vp_assert(r == pos, "S01: the empty text occurs everywhere, also at the end");
    }
}
template <typename C>
void find_refused()
{
    const Text<C>              t("n", "text");
    const Text<C>              s("m", "pattern");
    const basic_string_view<C> v   = t.view();
    const std::size_t          pos = vp_nondet_size("pos");
    vp_assume(pos > t.n || s.n > t.n - pos);
    const std::size_t          r   = v.find(s.view(), pos);
    vp_assert(r == basic_string_view<C>::npos, "S01: nothing is found beyond the end");
    vp_assert(basic_string_view<C>().find(s.view()) == (s.n == 0 ? 0 : basic_string_view<C>::npos), "S01: nothing is found in the empty text but the empty text");
}

constexpr int sign(int x)
{
    return x < 0 ? -1 : x > 0 ? 1 : 0;
}

template <typename C>
void all_operators(const basic_string_view<C> a, const basic_string_view<C> b, int want)
{
    vp_assert(sign(a.compare(b)) == want, "S02: lexicographic order");
    if (sizeof(C) > 1)
    {
        return;  // the operators are those of any character type
    }
    switch (vp_choose(6, "operator"))
    {
    case 0: vp_assert((a == b) == (want == 0), "S02: the operators agree with the order"); break;
    case 1: vp_assert((a != b) == (want != 0), "S02: the operators agree with the order"); break;
    case 2: vp_assert((a < b) == (want < 0), "S02: the operators agree with the order"); break;
    case 3: vp_assert((a <= b) == (want <= 0), "S02: the operators agree with the order"); break;
    case 4: vp_assert((a > b) == (want > 0), "S02: the operators agree with the order"); break;
    default: vp_assert((a >= b) == (want >= 0), "S02: the operators agree with the order"); break;
    }
}

// texts that agree up to d, where they differ
template <typename C, typename U>
void compare_different()
{
    const Text<C>     a("n", "a");
    const Text<C>     b("m", "b");
    const std::size_t d = vp_nondet_size("d");
    vp_assume(d < a.n && d < b.n);
    std::memcpy(b.p, a.p, d * sizeof(C));
    vp_hint(d * sizeof(C));
    vp_hint(d);
    vp_assume(a.p[d] != b.p[d]);
    all_operators(a.view(), b.view(), static_cast<U>(a.p[d]) < static_cast<U>(b.p[d]) ? -1 : 1);
}
// one is a prefix of the other
template <typename C>
void compare_prefix()
{
    const Text<C>     a("n", "a");
    const Text<C>     b("m", "b");
    const std::size_t d = a.n < b.n ? a.n : b.n;
    std::memcpy(b.p, a.p, d * sizeof(C));
    all_operators(a.view(), b.view(), a.n < b.n ? -1 : a.n > b.n ? 1 : 0);
}

}  // namespace

VP_CONTRACT(c_sv_observe) // S01
{
    observe<char>();
}
VP_CONTRACT(c_sv_observe_u16) // S01
{
    observe<char16_t>();
}
VP_CONTRACT(c_sv_slice) // S01
{
    slice<char>();
}
VP_CONTRACT(c_sv_slice_u16) // S01
{
    slice<char16_t>();
}
VP_CONTRACT(c_sv_exchange) // S01
{
    exchange<char>();
}
VP_CONTRACT(c_sv_copy) // S01
{
    copy_out<char>();
}
VP_CONTRACT(c_sv_copy_u16) // S01
{
    copy_out<char16_t>();
}
VP_CONTRACT(c_sv_find_char_is_occurrence) // S01
{
    find_char_is_occurrence<char>();
}
VP_CONTRACT(c_sv_find_char_is_occurrence_u16) // S01
{
    find_char_is_occurrence<char16_t>();
}
VP_CONTRACT(c_sv_find_char_is_first) // S01
{
    find_char_is_first<char>(false);
}
VP_CONTRACT(c_sv_find_char_is_first_u16) // S01
{
    find_char_is_first<char16_t>(false);
}
VP_CONTRACT(c_sv_find_char_from_start) // S01
{
    find_char_is_first<char>(true);
}
VP_CONTRACT(c_sv_find_is_occurrence) // S01
{
    find_is_occurrence<char>();
}
VP_CONTRACT(c_sv_find_is_first) // S01
{
    find_is_first<char>();
}
VP_CONTRACT(c_sv_find_refused) // S01
{
    find_refused<char>();
}
VP_CONTRACT(c_sv_from_string) // S01
{
    const Text<char> t("n", "text");
    vp_assume(t.n > 0);
    const std::size_t k = vp_nondet_size("k");
    vp_assume(k < t.n && t.p[k] == 0);
    const std::size_t i = vp_nondet_size("i_before");
    vp_hint(k);
    vp_hint(i);
    const basic_string_view<char> v(t.p);
    vp_assert(v.data() == t.p && v.size() <= k && t.p[v.size()] == 0, "S01: a string is viewed up to its end");
    vp_assert(!(i < v.size()) || t.p[i] != 0, "S01: a string is viewed up to its end");
}
VP_CONTRACT(c_sv_compare_different) // S02
{
    compare_different<char, unsigned char>();
}
VP_CONTRACT(c_sv_compare_different_u16) // S02
{
    compare_different<char16_t, char16_t>();
}
VP_CONTRACT(c_sv_compare_prefix) // S02
{
    compare_prefix<char>();
}
VP_CONTRACT(c_sv_compare_prefix_u16) // S02
{
    compare_prefix<char16_t>();
}
VP_CONTRACT(c_sv_compare_empty) // S02
{
    const Text<char>              t("n", "text");
    const basic_string_view<char> none;
    all_operators(t.view(), none, t.n == 0 ? 0 : 1);
    all_operators(none, t.view(), t.n == 0 ? 0 : -1);
}
