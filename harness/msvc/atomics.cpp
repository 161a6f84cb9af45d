// MSVC's interlocked intrinsics: full barriers on x86.
extern "C"
{
#define ONE(N, T, X, A, C) \
    T __tsan_atomic##N##_load(T volatile const*, int); \
    void __tsan_atomic##N##_store(T volatile*, T, int); \
    T __iso_volatile_load##N(T volatile const* p) { return __tsan_atomic##N##_load(p, 5); } \
    void __iso_volatile_store##N(T volatile* p, T v) { __tsan_atomic##N##_store(p, v, 3); } \
    T __tsan_atomic##N##_exchange(T volatile*, T, int); \
    T __tsan_atomic##N##_fetch_add(T volatile*, T, int); \
    T __tsan_atomic##N##_compare_exchange_val(T volatile*, T, T, int, int); \
    T X(T volatile* p, T v) { return __tsan_atomic##N##_exchange(p, v, 5); } \
    T A(T volatile* p, T v) { return __tsan_atomic##N##_fetch_add(p, v, 5); } \
    T C(T volatile* p, T n, T e) { return __tsan_atomic##N##_compare_exchange_val(p, e, n, 5, 5); }
    ONE(8, char, _InterlockedExchange8, _InterlockedExchangeAdd8, _InterlockedCompareExchange8)
    ONE(16, short, _InterlockedExchange16, _InterlockedExchangeAdd16, _InterlockedCompareExchange16)
    ONE(32, int, _InterlockedExchange, _InterlockedExchangeAdd, _InterlockedCompareExchange)
    ONE(64, long long, _InterlockedExchange64, _InterlockedExchangeAdd64, _InterlockedCompareExchange64)
    void* _InterlockedExchangePointer(void* volatile* p, void* v) { return reinterpret_cast<void*>(_InterlockedExchange64(reinterpret_cast<long long volatile*>(p), reinterpret_cast<long long>(v))); }
    void* _InterlockedCompareExchangePointer(void* volatile* p, void* n, void* e) { return reinterpret_cast<void*>(_InterlockedCompareExchange64(reinterpret_cast<long long volatile*>(p), reinterpret_cast<long long>(n), reinterpret_cast<long long>(e))); }
    void _ReadWriteBarrier() { }
}
