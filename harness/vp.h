// Harness interface.  Under the symbolic executor these are intercepted; natively
// (counterexample replay, co-simulation) they are implemented by vp_native.cpp.
#pragma once
#include <cstdint>
extern "C" {
std::uint64_t vp_sym(unsigned bits, const char* name) noexcept;
void vp_assume(bool c) noexcept;
void vp_assert(bool c, const char* msg) noexcept;
void vp_cover(const char* label) noexcept;
void vp_observe(std::uint64_t v) noexcept;
void vp_checkpoint() noexcept;
std::uint64_t vp_live_heap() noexcept;
std::uint64_t vp_concretize(std::uint64_t v) noexcept;
void* vp_raw_new(unsigned long n) noexcept;      // for harnesses that replace operator new (allocation failures)
}
