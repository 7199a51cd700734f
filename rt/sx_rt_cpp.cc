#include <cstddef>
#include <new>
extern "C" void* sx_rt_new(size_t);
extern "C" void sx_rt_delete(void*);
void* operator new(size_t n) { return sx_rt_new(n); }
void* operator new[](size_t n) { return sx_rt_new(n); }
void operator delete(void* p) noexcept { sx_rt_delete(p); }
void operator delete[](void* p) noexcept { sx_rt_delete(p); }
void operator delete(void* p, size_t) noexcept { sx_rt_delete(p); }
void operator delete[](void* p, size_t) noexcept { sx_rt_delete(p); }
