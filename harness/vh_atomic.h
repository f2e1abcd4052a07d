/* profile "atomic", solver only: the compiler's atomic builtins as indivisible steps (sequentially
 * consistent; memory-order arguments are not distinguished).  Pointers are counted in bytes. */
#ifdef VH_SOLVER
#ifndef VH_ATOMIC_H
#define VH_ATOMIC_H
#define VA_T(p) __typeof__(*(p))
#define VA_RMW(p, newv, result) ({ __CPROVER_atomic_begin(); VA_T(p) va_old = *(p); VA_T(p) va_new = (VA_T(p))(newv); *(p) = va_new; __CPROVER_atomic_end(); (result); })
#define VA_O ((unsigned long)va_old)
#define VA_V(v) ((unsigned long)(v))
#define __sync_fetch_and_add(p, v, ...) VA_RMW(p, VA_O + VA_V(v), va_old)
#define __sync_fetch_and_sub(p, v, ...) VA_RMW(p, VA_O - VA_V(v), va_old)
#define __sync_fetch_and_or(p, v, ...)  VA_RMW(p, VA_O | VA_V(v), va_old)
#define __sync_fetch_and_and(p, v, ...) VA_RMW(p, VA_O & VA_V(v), va_old)
#define __sync_fetch_and_xor(p, v, ...) VA_RMW(p, VA_O ^ VA_V(v), va_old)
#define __sync_add_and_fetch(p, v, ...) VA_RMW(p, VA_O + VA_V(v), va_new)
#define __sync_sub_and_fetch(p, v, ...) VA_RMW(p, VA_O - VA_V(v), va_new)
#define __sync_or_and_fetch(p, v, ...)  VA_RMW(p, VA_O | VA_V(v), va_new)
#define __sync_and_and_fetch(p, v, ...) VA_RMW(p, VA_O & VA_V(v), va_new)
#define __sync_xor_and_fetch(p, v, ...) VA_RMW(p, VA_O ^ VA_V(v), va_new)
#define __sync_lock_test_and_set(p, v, ...) VA_RMW(p, VA_V(v), va_old)
#define __sync_lock_release(p, ...) ((void)VA_RMW(p, 0, va_old))
#define __sync_val_compare_and_swap(p, o, n, ...) VA_RMW(p, va_old == (VA_T(p))(o) ? (VA_T(p))(n) : va_old, va_old)
#define __sync_bool_compare_and_swap(p, o, n, ...) VA_RMW(p, va_old == (VA_T(p))(o) ? (VA_T(p))(n) : va_old, va_old == (VA_T(p))(o))
#define __sync_synchronize(...) ((void)0)
#define __atomic_load_n(p, m) ({ __CPROVER_atomic_begin(); VA_T(p) va_old = *(p); __CPROVER_atomic_end(); va_old; })
#define __atomic_store_n(p, v, m) ((void)VA_RMW(p, v, va_old))
#define __atomic_exchange_n(p, v, m) VA_RMW(p, v, va_old)
#define __atomic_fetch_add(p, v, m) VA_RMW(p, VA_O + VA_V(v), va_old)
#define __atomic_fetch_sub(p, v, m) VA_RMW(p, VA_O - VA_V(v), va_old)
#define __atomic_add_fetch(p, v, m) VA_RMW(p, VA_O + VA_V(v), va_new)
#define __atomic_sub_fetch(p, v, m) VA_RMW(p, VA_O - VA_V(v), va_new)
#define __atomic_compare_exchange_n(p, e, n, w, s, f) ({ __CPROVER_atomic_begin(); VA_T(p) va_old = *(p); _Bool va_ok = va_old == *(e); \
    if (va_ok) { *(p) = (VA_T(p))(n); } else { *(e) = va_old; } __CPROVER_atomic_end(); va_ok; })
#endif
#endif
