// Requests no machine can serve end in std::bad_alloc, also under the address sanitizer.
#pragma once
extern "C" __attribute__((used)) const char* __asan_default_options() { return "allocator_may_return_null=1:max_allocation_size_mb=256"; }
#include <cstdlib>
#include <new>
void* operator new(std::size_t n) { void* p = n < (std::size_t(1) << 28) ? std::malloc(n ? n : 1) : nullptr; if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
