/* ZyanVectorFind(Ex) and ZyanVectorBinarySearch(Ex) on arbitrary content, range and key. */
#include "vh_alloc.h"
#include <Zycore/Vector.h>
#ifndef CAP
#define CAP 4
#endif
#ifndef ES
#define ES 2
#endif
static ZyanVector v;
static u8 old[CAP * ES];
static u64 n0;
static u8 key[ES];
static int bad_arg;

static void arg(const void* a, const void* b)
{
    u64 off = (u64)((const u8*)a - (const u8*)v.data);
    if (off >= n0 * ES || off % ES || b != (const void*)key) { bad_arg = 1; }
}
static ZyanBool eq(const void* a, const void* b)
{
    arg(a, b);
    return (((const u8*)a)[0] ^ ((const u8*)b)[0]) & 0x7F ? ZYAN_FALSE : ZYAN_TRUE;
}
/* any result magnitudes are allowed by the interface */
static ZyanI32 cmp(const void* a, const void* b)
{
    arg(a, b);
    u8 x = ((const u8*)a)[0], y = ((const u8*)b)[0];
    return x < y ? -3 : x > y ? 5 : 0;
}
static void setup(void)
{
    n0 = nd_range(0, CAP);
    v.allocator = ZYAN_NULL; v.growth_factor = 1; v.shrink_threshold = 0; v.size = n0; v.capacity = CAP;
    v.element_size = ES; v.destructor = ZYAN_NULL;
    v.data = vh_block(CAP * ES);
    nd_bytes(v.data, CAP * ES);
    nd_bytes(key, ES);
    for (unsigned i = 0; i < CAP * ES; ++i) { old[i] = ((u8*)v.data)[i]; }
}
static void unchanged(void)
{
    u64 k = nd_below(CAP * ES);
    VP(V06, v.size == n0 && v.capacity == CAP && ((u8*)v.data)[k] == old[k], "searching does not change the vector");
    VP(V02, v.size == n0 && v.capacity == CAP && ((u8*)v.data)[k] == old[k], "searching does not change the vector");
    VP(V06, !bad_arg, "the comparison gets a vector element and the key");
}
void h_find(void)
{
    setup();
    u64 idx = nd_usize(), cnt = nd_usize();
    int mode = (int)nd_below(2);
    ZyanISize fi = 77;
    ZyanStatus st;
    if (mode) { idx = 0; cnt = n0; st = ZyanVectorFind(&v, key, &fi, &eq); }
    else { st = ZyanVectorFindEx(&v, key, &fi, &eq, idx, cnt); }
    if (idx > n0 || cnt > n0 - idx)
    {
        VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE, "searching outside the vector is out of range");
        VP(V06, !ZYAN_SUCCESS(st), "searching outside the vector is refused");
        VH_WITNESS("find rejected");
    } else if (idx == n0 && st == ZYAN_STATUS_OUT_OF_RANGE)
    {
        /* an empty range at the very end may be refused */
    } else
    {
        u64 want = ~0ull;
        for (unsigned i = CAP; i-- > 0; )
        {
            if (i >= idx && i - idx < cnt && i < n0 && ((old[i * ES] ^ key[0]) & 0x7F) == 0) { want = i; }
        }
        VP(V06, st == (want == ~0ull ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE), "find: status tells whether there is a match");
        VP(V06, (u64)fi == want, "find: index of the first match, or -1");
        VH_WITNESS_IF(want != ~0ull && !mode && want > idx, "found");
        VH_WITNESS_IF(want == ~0ull && cnt, "not found");
    }
    unchanged();
}
void h_bsearch(void)
{
    setup();
    u64 idx = nd_usize(), cnt = nd_usize();
    int mode = (int)nd_below(2);
    u64 fi = 77;
    if (mode) { idx = 0; cnt = n0; }
    int in_range = idx <= n0 && cnt <= n0 - idx;
    for (unsigned i = 0; i + 1 < CAP; ++i)
    {
        if (in_range && i >= idx && i + 1 < idx + cnt) { VH_ASSUME(old[i * ES] <= old[(i + 1) * ES]); }
    }
    ZyanStatus st;
    if (mode) { st = ZyanVectorBinarySearch(&v, key, &fi, &cmp); }
    else { st = ZyanVectorBinarySearchEx(&v, key, &fi, &cmp, idx, cnt); }
    if (!in_range)
    {
        VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE, "searching outside the vector is out of range");
        VP(V06, !ZYAN_SUCCESS(st), "searching outside the vector is refused");
        VH_WITNESS("bsearch rejected");
    } else
    {
        u64 lo = idx + cnt; int hit = 0;
        for (unsigned i = CAP; i-- > 0; )
        {
            if (i >= idx && i - idx < cnt && old[i * ES] >= key[0]) { lo = i; }
            if (i >= idx && i - idx < cnt && old[i * ES] == key[0]) { hit = 1; }
        }
        VP(V06, st == (hit ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "binary search: true exactly if an equal element is in the range");
        VP(V06, fi == lo, "binary search: index of the first equal element, or of the insertion point");
        VH_WITNESS_IF(hit && cnt > 2 && lo > idx, "found");
        VH_WITNESS_IF(!hit && lo == idx + cnt && cnt > 1, "not found");
    }
    unchanged();
}
