// memcpy family: the versions the code under test sees report to the runtime, the rt_ versions do not.
#include <cstddef>
#include <cstdint>
extern "C" bool rt_mem_on(const void* a, const void* b, size_t n);
extern "C" void rt_mem_access(const void* a, size_t n, int write, void* pc);
#define HOOK __attribute__((noinline, optimize("no-tree-loop-distribute-patterns")))

extern "C" {
HOOK void* rt_memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
    void* r = d;
    __asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
HOOK void* rt_memmove(void* d, const void* s, size_t n)
{
    void* r = d;
    if ((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d >= (uintptr_t)s + n)
    {
        __asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    else
    {
        char* dd = (char*)d + n;
        const char* ss = (const char*)s + n;
        while (n--)
        {
            *--dd = *--ss;
            __asm__ volatile ("" ::: "memory");
        }
    }
    return r;
}
HOOK void* rt_memset(void* d, int c, size_t n)
{
    void* r = d;
    __asm__ volatile ("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
HOOK void* memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
    if (rt_mem_on(d, s, n))
    {
        rt_mem_access(s, n, 0, __builtin_return_address(0));
        rt_mem_access(d, n, 1, __builtin_return_address(0));
    }
    return rt_memcpy(d, s, n);
}
HOOK void* memmove(void* d, const void* s, size_t n)
{
    if (rt_mem_on(d, s, n))
    {
        rt_mem_access(s, n, 0, __builtin_return_address(0));
        rt_mem_access(d, n, 1, __builtin_return_address(0));
    }
    return rt_memmove(d, s, n);
}
HOOK void* memset(void* d, int c, size_t n)
{
    if (rt_mem_on(d, d, n))
    {
        rt_mem_access(d, n, 1, __builtin_return_address(0));
    }
    return rt_memset(d, c, n);
}
HOOK int memcmp(const void* a, const void* b, size_t n)
{
    if (rt_mem_on(a, b, n))
    {
        rt_mem_access(a, n, 0, __builtin_return_address(0));
        rt_mem_access(b, n, 0, __builtin_return_address(0));
    }
    const unsigned char* x = (const unsigned char*)a;
    const unsigned char* y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
    {
        if (x[i] != y[i])
        {
            return (int)x[i] - (int)y[i];
        }
        __asm__ volatile ("" ::: "memory");
    }
    return 0;
}
}
