// Native execution of contracts: inputs come from a replay file (VP_REPLAY) or from a seeded generator (VP_SEED).
#include "vp.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VP_ASAN 1
#endif
#ifdef VP_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#endif

namespace
{
struct Block
{
    char*       p;
    std::size_t n;
    bool        live;
};
std::vector<Block>                                           blocks;
std::map<std::pair<std::string, int>, std::uint64_t>         vals;
std::map<std::pair<std::string, int>, std::vector<unsigned>> arrays;
std::map<std::string, int>                                   seen;
bool                                                         replay = false;
std::uint64_t                                                rng    = 1;
FILE*                                                        logf   = nullptr;

std::uint64_t rnd()
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL;
}

std::uint64_t pick(int w, bool size)
{
    const auto    r = rnd() % 100;
    std::uint64_t v = 0;
    if (size)
    {
        if (r < 55)
            v = rnd() % 6;
        else if (r < 75)
            v = rnd() % 20;
        else if (r < 88)
            v = rnd() % 80;
        else if (r < 94)
            v = rnd() % 700;
        else if (r < 97)
            v = (1ULL << (rnd() % 20)) + rnd() % 3 - 1;
        else
            v = ~0ULL - rnd() % 5;
    }
    else if (w == 1)
        v = rnd() & 1;
    else if (r < 40)
        v = rnd() % 4;
    else if (r < 70)
        v = rnd() % 256;
    else if (r < 80)
        v = ~0ULL - rnd() % 3;
    else
        v = rnd();
    if (w < 64)
        v &= (1ULL << w) - 1;
    return v;
}

std::uint64_t get(const char* name, int w, bool size = false)
{
    const int  i = seen[name]++;
    const auto k = std::make_pair(std::string(name), i);
    const auto f = vals.find(k);
    const auto v = (f != vals.end()) ? f->second : (replay ? 0 : pick(w, size));
    if (logf)
    {
        std::fprintf(logf, "%s %d %d %llu\n", name, i, w, (unsigned long long) v);
        std::fflush(logf);
    }
    return v;
}
[[noreturn]] void finish(int code)
{
    std::fflush(stdout);
    _exit(code);
}
}  // namespace

extern "C" {
bool vp_nondet_bool(const char* n) noexcept { return get(n, 1) & 1; }
std::uint8_t vp_nondet_u8(const char* n) noexcept { return static_cast<std::uint8_t>(get(n, 8)); }
std::uint16_t vp_nondet_u16(const char* n) noexcept { return static_cast<std::uint16_t>(get(n, 16)); }
std::uint32_t vp_nondet_u32(const char* n) noexcept { return static_cast<std::uint32_t>(get(n, 32)); }
std::uint64_t vp_nondet_u64(const char* n) noexcept { return get(n, 64); }
std::size_t vp_nondet_size(const char* n) noexcept { return get(n, 64, true); }
unsigned vp_choose(unsigned n, const char* name) noexcept
{
    const auto v = get(name, 32);
    if (replay && v >= n)
        finish(77);
    return static_cast<unsigned>(v % n);
}
bool vp_split(bool c) noexcept { return c; }
void vp_assume(bool c) noexcept
{
    if (!c)
        finish(77);
}
void vp_assert(bool c, const char* label) noexcept
{
    if (!c)
    {
        std::printf("VP_FAIL %s\n", label);
        finish(66);
    }
}
void vp_cover(const char*) noexcept {}
void vp_hint(std::size_t) noexcept {}
void vp_hint_ptr(const void*) noexcept {}
void* vp_alloc(std::size_t size, std::size_t mis) noexcept
{
    if (size > (1ULL << 28))
        finish(77);
    if (mis == ~std::size_t(0))
        mis = 0;
    char* b = nullptr;
    if (0 != posix_memalign(reinterpret_cast<void**>(&b), 4096, ((mis + size) / 4096 + 2) * 4096))
        finish(77);
    std::memset(b, 0xA5, mis + size);
    ASAN_POISON_MEMORY_REGION(b, ((mis + size) / 4096 + 2) * 4096);
    ASAN_UNPOISON_MEMORY_REGION(b + mis, size);
    blocks.push_back({b + mis, size, true});
    return b + mis;
}
void* vp_alloc_aligned(std::size_t size, std::size_t align) noexcept
{
    return vp_alloc(size, (align >= 4096) ? 0 : align);
}
void vp_free(void* p) noexcept
{
    for (auto& b : blocks)
    {
        if (b.p == p && b.live)
        {
            b.live = false;
            ASAN_POISON_MEMORY_REGION(b.p, b.n);
            return;
        }
    }
    vp_assert(false, "release of a live block by its start");
}
void vp_havoc(void* p, std::size_t n, const char* name) noexcept
{
    const int  i = seen[name]++;
    const auto f = arrays.find(std::make_pair(std::string(name), i));
    auto*      c = static_cast<unsigned char*>(p);
    const int  mode = static_cast<int>(rnd() % 3);
    for (std::size_t k = 0; k < n; ++k)
    {
        if (f != arrays.end())
            c[k] = static_cast<unsigned char>(k < f->second.size() ? f->second[k] : 0);
        else
            c[k] = static_cast<unsigned char>(replay ? 0 : (mode == 0 ? rnd() % 2 : (mode == 1 ? 'a' + rnd() % 2 : rnd())));
    }
    if (logf)
    {
        std::fprintf(logf, "%s %d array", name, i);
        for (std::size_t k = 0; k < n && k < 4096; ++k)
            std::fprintf(logf, " %u", c[k]);
        std::fprintf(logf, "\n");
        std::fflush(logf);
    }
}
bool vp_live(const void* p, std::size_t n) noexcept
{
    const auto* c     = static_cast<const char*>(p);
    bool        known = false;
    for (const auto& b : blocks)
    {
        if (c >= b.p && c <= b.p + b.n)
        {
            if (b.live && n <= static_cast<std::size_t>(b.p + b.n - c))
                return true;
            known = true;
        }
    }
    return !known && p != nullptr;
}
bool vp_same_object(const void* p, const void* q) noexcept
{
    for (const auto& b : blocks)
    {
        const auto in = [&](const void* x) {
            const auto* c = static_cast<const char*>(x);
            return c >= b.p && c < b.p + (b.n ? b.n : 1);
        };
        if (b.live && (in(p) || in(q)))
            return in(p) && in(q);
    }
    return p == q && p != nullptr;
}
std::size_t vp_size_of(const void* p) noexcept
{
    for (const auto& b : blocks)
    {
        const auto* c = static_cast<const char*>(p);
        if (b.live && c >= b.p && c < b.p + (b.n ? b.n : 1))
            return b.n;
    }
    return 0;
}
void vp_print(const char* s, std::uint64_t v) noexcept { std::printf("%s %llu\n", s, (unsigned long long) v); }
void vp_abandon() noexcept { finish(77); }
}

namespace
{
void load(const char* path)
{
    FILE* f = std::fopen(path, "r");
    if (f == nullptr)
        _exit(3);
    replay = true;
    char line[65536];
    while (std::fgets(line, sizeof(line), f))
    {
        if (line[0] == '#')
            continue;
        char name[256];
        char kind[64];
        int  i   = 0;
        int  pos = 0;
        if (std::sscanf(line, "%255s %d %63s %n", name, &i, kind, &pos) < 3)
            continue;
        if (0 == std::strcmp(kind, "array"))
        {
            auto&       a = arrays[std::make_pair(std::string(name), i)];
            const char* c = line + pos;
            unsigned    u = 0;
            int         m = 0;
            while (std::sscanf(c, "%u %n", &u, &m) == 1)
            {
                a.push_back(u);
                c += m;
            }
        }
        else
        {
            vals[std::make_pair(std::string(name), i)] = std::strtoull(line + pos, nullptr, 10);
        }
    }
    std::fclose(f);
}
}  // namespace

// usage: prog <contract> replay <file>          exit 0: held, 66: failed (label printed), 77: rejected by a precondition
//        prog <contract> random <seed> <count> <logdir>   runs children; stops at the first failure
int main(int argc, char** argv)
{
    if (argc < 4)
        return 2;
    void (*fn)() = nullptr;
    *reinterpret_cast<void**>(&fn) = dlsym(RTLD_DEFAULT, argv[1]);
    if (fn == nullptr)
    {
        std::printf("no contract %s\n", argv[1]);
        return 2;
    }
    if (0 == std::strcmp(argv[2], "replay"))
    {
        load(argv[3]);
        fn();
        std::printf("VP_OK\n");
        return 0;
    }
    const auto seed  = std::strtoull(argv[3], nullptr, 10);
    const auto count = std::strtoull(argv[4], nullptr, 10);
    unsigned long long accepted = 0;
    for (unsigned long long i = 0; i < count; ++i)
    {
        const std::string path = std::string(argv[5]) + "/" + argv[1] + ".in";
        const pid_t       p    = fork();
        if (p == 0)
        {
            rng  = (seed + i) * 0x9E3779B97F4A7C15ULL + 0x1234567ULL;
            for (int k = 0; k < 8; ++k)
                (void) rnd();
            logf = std::fopen(path.c_str(), "w");
            alarm(10);
            fn();
            finish(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
            continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
            ++accepted;
            continue;
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
            continue;
        std::printf("VP_RANDOM_FAIL %s\n", path.c_str());
        return 66;
    }
    std::printf("VP_RANDOM_OK %llu of %llu\n", accepted, count);
    return 0;
}
