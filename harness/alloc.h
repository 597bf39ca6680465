// Very large requests fail as they do on a machine without the memory (ASan itself would end the process).
#include <dlfcn.h>
#include <new>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const size_t MAXALLOC = 24u << 20;
inline void* sys_new(const char* sym, size_t n)
{
    typedef void* (*fn)(size_t);
    fn f = (fn)dlsym(RTLD_NEXT, sym);
    return f(n);
}
void* operator new(size_t n)
{
    static void* (*f)(size_t) = 0;
    if (n > MAXALLOC) throw std::bad_alloc();
    if (!f) f = (void* (*)(size_t))dlsym(RTLD_NEXT, "_Znwm");
    return f(n);
}
void* operator new[](size_t n)
{
    static void* (*f)(size_t) = 0;
    if (n > MAXALLOC) throw std::bad_alloc();
    if (!f) f = (void* (*)(size_t))dlsym(RTLD_NEXT, "_Znam");
    return f(n);
}
inline size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
