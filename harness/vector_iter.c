/* The iteration macros of Vector.h on a vector of 0 to CAP elements with any content. */
#include "vh_alloc.h"
#include <Zycore/Vector.h>
#ifndef CAP
#define CAP 5
#endif
typedef struct { u8 a, b, c; } el;
static ZyanVector v; static u64 n0; static el old[CAP]; static u64 k;
static void setup(void)
{
    n0 = nd_range(0, CAP); k = nd_u64();
    v.allocator = ZYAN_NULL; v.growth_factor = 1; v.shrink_threshold = 0; v.size = n0; v.capacity = CAP;
    v.element_size = sizeof(el); v.destructor = ZYAN_NULL;
    v.data = vh_block(CAP * sizeof(el));
    nd_bytes(v.data, CAP * sizeof(el));
    for (unsigned i = 0; i < CAP; ++i) { old[i] = ((el*)v.data)[i]; }
}
static int same(el x, el y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
static u64 wide(const el* e) { return e->a | (u64)e->b << 8 | (u64)e->c << 16; }
static void kept(void)
{
    VP(V08, v.size == n0 && v.capacity == CAP, "iterating does not change the vector");
    if (k < CAP) { VP(V08, same(((el*)v.data)[k], old[k]), "iterating does not change the elements"); }
}
void h_foreach(void)
{
    setup();
    u64 seen = 0; int ok = 1;
    const ZyanVector* p = &v;
    ZYAN_VECTOR_FOREACH(el, p, x,
    {
        if (seen >= n0 || !same(x, old[seen < CAP ? seen : 0])) { ok = 0; }
        ++seen;
        if (x.a & 1) { continue; }
        if (seen > CAP) { break; }
    });
    VP(V08, ok, "each element is visited in its turn");
    VP(V08, seen == n0, "every element is visited exactly once");
    kept();
    u64 i = 0, pairs = 0; ok = 1;
    ZYAN_VECTOR_FOREACH(el, &v, x,
    {
        u64 j = 0;
        if (i >= CAP || !same(x, old[i])) { ok = 0; }
        ZYAN_VECTOR_FOREACH(el, &v, y,
        {
            if (j >= CAP || !same(y, old[j])) { ok = 0; }
            ++j; ++pairs;
        });
        ++i;
    });
    VP(V08, ok && pairs == n0 * n0, "nested iterations visit every pair");
    if (k < n0) { VP(V08, same(ZYAN_VECTOR_GET(el, &v, k), old[k]), "ZYAN_VECTOR_GET gives the element at the index"); }
    VH_WITNESS_IF(seen == CAP, "full");
    VH_WITNESS_IF(seen == 0, "empty");
}
void h_foreach_mutable(void)
{
    setup();
    u64 seen = 0; int ok = 1; u8 add = nd_u8();
    ZYAN_VECTOR_FOREACH_MUTABLE(el, &v, x,
    {
        if (x != (el*)v.data + seen) { ok = 0; }
        else { x->b = (u8)(x->b + add); }
        ++seen;
        if (add & 1) { continue; }
    });
    VP(V08, ok, "each element is visited in its turn");
    VP(V08, seen == n0, "every element is visited exactly once");
    VP(V08, v.size == n0 && v.capacity == CAP, "iterating does not change the vector");
    if (k < CAP)
    {
        el w = old[k];
        if (k < n0) { w.b = (u8)(w.b + add); }
        VP(V08, wide((el*)v.data + k) == wide(&w), "exactly the changes of the body are made");
    }
    VH_WITNESS_IF(seen == CAP && add == 3, "full");
}
/* the body changes the vector: the number of rounds is fixed when the iteration starts, each sees the current storage */
void h_foreach_grow(void)
{
    setup();
    u64 seen = 0; int ok = 1; el extra = { 1, 2, 3 };
    vh_alloc_init(0);
    u8* d = vh_alloc_adopt(sizeof(el), CAP, CAP * sizeof(el));
    for (unsigned i = 0; i < CAP; ++i) { ((el*)d)[i] = old[i]; }
    v.allocator = &vh_allocator; v.growth_factor = 2; v.data = d;
    ZYAN_VECTOR_FOREACH(el, &v, x,
    {
        if (!same(x, old[seen < CAP ? seen : 0])) { ok = 0; }
        if (seen == 0) { ZyanStatus st = ZyanVectorPushBack(&v, &extra); if (!ZYAN_SUCCESS(st)) { ok = 0; } }
        ++seen;
    });
    VP(V08, ok && seen == n0, "elements appended by the body are not visited");
    VP(V08, v.size == n0 + (n0 > 0), "the body's change is kept");
    seen = 0;
    ZYAN_VECTOR_FOREACH_MUTABLE(el, &v, x,
    {
        if (x != (el*)v.data + seen) { ok = 0; }
        if (seen == 0) { ZyanStatus st = ZyanVectorReserve(&v, 2 * CAP + 1); if (!ZYAN_SUCCESS(st)) { ok = 0; } }
        ++seen;
    });
    VP(V08, ok && seen == v.size, "the address handed out is that in the current storage");
    VH_WITNESS_IF(seen == CAP + 1, "grown");
}
