// Memory that is aligned as requested and never more.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif

static void* get(std::size_t n, std::size_t align) noexcept {
    void* p = nullptr;
    if (n > (std::size_t{ 1 } << 40) || posix_memalign(&p, 2 * align, n + align)) return nullptr;
    ASAN_POISON_MEMORY_REGION(p, align);
    return static_cast<char*>(p) + align;
}
static void give(void* p, std::size_t align) noexcept {
    if (!p) return;
    p = static_cast<char*>(p) - align;
    ASAN_UNPOISON_MEMORY_REGION(p, align);
    std::free(p);
}
static void* must(void* p) { if (!p) throw std::bad_alloc{}; return p; }
constexpr std::size_t D = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
static std::size_t al(std::align_val_t a) { return static_cast<std::size_t>(a) < D ? D : static_cast<std::size_t>(a); }

void* operator new(std::size_t n) { return must(get(n, D)); }
void* operator new[](std::size_t n) { return must(get(n, D)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return get(n, D); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return get(n, D); }
void* operator new(std::size_t n, std::align_val_t a) { return must(get(n, al(a))); }
void* operator new[](std::size_t n, std::align_val_t a) { return must(get(n, al(a))); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, al(a)); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, al(a)); }
void operator delete(void* p) noexcept { give(p, D); }
void operator delete[](void* p) noexcept { give(p, D); }
void operator delete(void* p, std::size_t) noexcept { give(p, D); }
void operator delete[](void* p, std::size_t) noexcept { give(p, D); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p, D); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p, D); }
void operator delete(void* p, std::align_val_t a) noexcept { give(p, al(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { give(p, al(a)); }
void operator delete(void* p, std::size_t, std::align_val_t a) noexcept { give(p, al(a)); }
void operator delete[](void* p, std::size_t, std::align_val_t a) noexcept { give(p, al(a)); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { give(p, al(a)); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { give(p, al(a)); }
