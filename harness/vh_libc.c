/* Byte-loop models of the memory and string functions (solver build only; the replay uses the
 * real libc under ASan).  They are the C standard's definitions, and they check the standard's
 * no-overlap precondition of memcpy (an exact self-copy is let through, as ASan does). */
#ifdef VH_SOLVER
#include "vh.h"
#define B(p) ((unsigned char*)(p))
#define CB(p) ((const unsigned char*)(p))
void* memcpy(void* restrict d, const void* restrict s, size_t n)
{
    if (n && (d != (void*)s) && __CPROVER_same_object(d, s))
    {
        size_t a = __CPROVER_POINTER_OFFSET(d), b = __CPROVER_POINTER_OFFSET(s);
        __CPROVER_assert(a < b ? b - a >= n : a - b >= n, "memcpy: regions do not overlap");
    }
    for (size_t i = 0; i < n; ++i) { B(d)[i] = CB(s)[i]; }
    return d;
}
void* memmove(void* d, const void* s, size_t n)
{
    if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s))
    {
        for (size_t i = n; i > 0; --i) { B(d)[i - 1] = CB(s)[i - 1]; }
    } else
    {
        for (size_t i = 0; i < n; ++i) { B(d)[i] = CB(s)[i]; }
    }
    return d;
}
void* memset(void* d, int c, size_t n)
{
    for (size_t i = 0; i < n; ++i) { B(d)[i] = (unsigned char)c; }
    return d;
}
int memcmp(const void* a, const void* b, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        if (CB(a)[i] != CB(b)[i]) { return CB(a)[i] < CB(b)[i] ? -1 : 1; }
    }
    return 0;
}
void* memchr(const void* s, int c, size_t n)
{
    for (size_t i = 0; i < n; ++i) { if (CB(s)[i] == (unsigned char)c) { return (void*)(CB(s) + i); } }
    return 0;
}
size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n]) { ++n; }
    return n;
}
size_t strnlen(const char* s, size_t m)
{
    size_t n = 0;
    while (n < m && s[n]) { ++n; }
    return n;
}
int strcmp(const char* a, const char* b)
{
    size_t i = 0;
    while (a[i] && a[i] == b[i]) { ++i; }
    return CB(a)[i] == CB(b)[i] ? 0 : (CB(a)[i] < CB(b)[i] ? -1 : 1);
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        if (CB(a)[i] != CB(b)[i]) { return CB(a)[i] < CB(b)[i] ? -1 : 1; }
        if (!a[i]) { return 0; }
    }
    return 0;
}
char* strcpy(char* restrict d, const char* restrict s)
{
    size_t i = 0;
    do { d[i] = s[i]; } while (s[i++]);
    return d;
}
char* strchr(const char* s, int c)
{
    for (size_t i = 0;; ++i)
    {
        if (s[i] == (char)c) { return (char*)(s + i); }
        if (!s[i]) { return 0; }
    }
}
#endif
