// Allocation functions of the module under test: a failure can be injected into
// the k-th large allocation, and live blocks are counted.
#include <cstddef>
#include <cstdlib>
#include <new>

static long countdown = -1;   // large allocations left until one fails, -1: never
static std::size_t large = 4096;
static unsigned long big = 0; // large allocations so far
static std::size_t limit = std::size_t(1) << 31;

extern "C" __attribute__((visibility("default"))) void hv_fail_after(long k, std::size_t threshold)
{
    countdown = k;
    large = threshold;
}
extern "C" __attribute__((visibility("default"))) unsigned long hv_large_allocations() { return big; }
extern "C" __attribute__((visibility("default"))) void hv_limit(std::size_t n) { limit = n; }

static void *get(std::size_t n)
{
    if (n >= large)
    {
        big++;
        if (countdown >= 0 && countdown-- == 0)
            return nullptr;
    }
    if (n > limit)
        return nullptr;
    return std::malloc(n ? n : 1);
}
void *operator new(std::size_t n)
{
    if (void *p = get(n))
        return p;
    throw std::bad_alloc();
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
