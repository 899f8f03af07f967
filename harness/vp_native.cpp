#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>
static std::uint64_t vals[1 << 16]; static unsigned nvals, pos, cps, maxcps; static long live; static bool loaded;
static void load()
{
    if (loaded) return; loaded = true;
    FILE* f = fopen(getenv("VP_TRACE"), "r"); if (!f) { fprintf(stderr, "VP_TRACE missing\n"); _exit(79); }
    if (fscanf(f, "%u %u", &maxcps, &nvals) != 2) _exit(79);
    for (unsigned i = 0; i < nvals; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) _exit(79); vals[i] = v; }
    fclose(f);
}
static void fin(int c) { fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
std::uint64_t vp_sym(unsigned bits, const char*) noexcept { load(); if (pos >= nvals) { printf("VP_EXHAUSTED\n"); fin(77); } std::uint64_t v = vals[pos++]; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void vp_assume(bool c) noexcept { if (!c) { printf("VP_ASSUME_FALSE\n"); fin(78); } }
void vp_assert(bool c, const char* m) noexcept { if (!c) { printf("VP_ASSERT_FAIL %s\n", m); fin(101); } }
void vp_cover(const char*) noexcept { }
void vp_observe(std::uint64_t v) noexcept { printf("OBS %llu\n", (unsigned long long)v); }
void vp_checkpoint() noexcept { load(); if (++cps >= maxcps && pos >= nvals) { printf("VP_END\n"); fin(0); } }
std::uint64_t vp_live_heap() noexcept { return (std::uint64_t)live; }
std::uint64_t vp_concretize(std::uint64_t v) noexcept { return v; }
}
static void* alloc(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) abort();
#if !defined(VP_MSAN)
    memset(p, 0xBE, n);
#endif
    live++; return p; }
#if defined(VP_MSAN)
extern "C" void* vp_raw_new(unsigned long n) noexcept { return malloc(n ? n : 1); }
#else
extern "C" void* vp_raw_new(unsigned long n) noexcept { return alloc(n); }
__attribute__((weak)) void* operator new(std::size_t n) { return alloc(n); }
void* operator new[](std::size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) live--; free(p); }
#endif
