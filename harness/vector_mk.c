/* Creating and duplicating vectors. */
#include "vh_alloc.h"
#include <Zycore/Vector.h>
#ifndef ES
#define ES 2
#endif
#define N 3
static void dtor(void* e) { (void)e; }
static ZyanVector d, s;
static u8* sbuf; static u8 old[N * ES];
static u64 n0, k;

static void check_new(u64 cap, ZyanAllocator* a, u8 gf, u8 th, u64 es, ZyanMemberProcedure dt)
{
    VP(V07, d.size == 0, "a new vector is empty");
    VP(V07, d.capacity >= cap && d.capacity >= 1, "a new vector has at least the requested capacity, and at least one");
    VP(V07, d.element_size == es && d.destructor == dt && d.allocator == a && d.growth_factor == gf && d.shrink_threshold == th,
        "a new vector has the requested settings");
    VP(V07, d.data != 0, "a new vector has storage");
}
static void owns(void)
{
    unsigned hits = 0;
    for (unsigned i = 0; i < VH_MAXBLK; ++i)
    {
        if (i < vh_nblk && vh_blks[i].live && vh_blks[i].p == d.data) { ++hits; VP(V07, vh_blks[i].n == d.capacity, "capacity is what was allocated"); VP(A01, vh_blks[i].n == d.capacity && vh_blks[i].es == d.element_size, "capacity is what was allocated"); }
    }
    VP(V07, hits == 1, "the new vector owns its storage");
}
static void destroy_and_check(void)
{
    ZyanStatus st = ZyanVectorDestroy(&d);
    VP(A01, st == ZYAN_STATUS_SUCCESS && vh_alloc_live() == 0, "destroying the vector releases everything");
}

void h_init(void)
{
    u64 cap = nd_usize();
    u64 es = nd_usize();
    u8 gf = nd_u8(), th = nd_u8();
    int fail = nd_bool(), dt = nd_bool(), which = (int)nd_below(6);
    vh_alloc_init(fail);
    ZyanMemberProcedure dp = dt ? &dtor : ZYAN_NULL;
    ZyanStatus st;
    if (which == 1) { st = ZyanVectorInitEx(0, es, cap, dp, &vh_allocator, gf, th); }
    else if (which == 2) { st = ZyanVectorInitEx(&d, es, cap, dp, 0, gf, th); }
    else if (which == 3) { st = ZyanVectorInitEx(&d, 0, cap, dp, &vh_allocator, gf, th); }
    else if (which == 4) { st = ZyanVectorInitEx(&d, es, cap, dp, &vh_allocator, 0, th); }
    else { st = ZyanVectorInitEx(&d, es, cap, dp, &vh_allocator, gf, th); }
    if ((which >= 1 && which <= 4) || es == 0 || gf == 0)
    {
        VP(V07, st == ZYAN_STATUS_INVALID_ARGUMENT, "invalid settings are refused");
        VP(A01, vh_alloc_live() == 0, "a refused construction keeps no memory");
        VH_WITNESS("invalid");
        return;
    }
    if (fail || vh_too_big)
    {
        VP(V07, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "a failed allocation is passed on");
        VP(A01, vh_alloc_live() == 0, "a failed construction keeps no memory");
        VH_WITNESS_IF(cap > ((u64)1 << 62), "huge");
        return;
    }
    VP(V07, st == ZYAN_STATUS_SUCCESS, "a valid construction succeeds");
    check_new(cap, &vh_allocator, gf, th, es, dp);
    owns();
    destroy_and_check();
    VH_WITNESS_IF(cap > 1 && es > 2, "created");
    VH_WITNESS_IF(cap == 0, "created with default capacity");
}

void h_init_custom(void)
{
    u64 cap = nd_usize(), es = nd_usize();
    int dt = nd_bool(), which = (int)nd_below(3);
    u8 buf[4];
    ZyanMemberProcedure dp = dt ? &dtor : ZYAN_NULL;
    vh_alloc_init(0);
    ZyanStatus st;
    if (which == 1) { st = ZyanVectorInitCustomBuffer(0, es, buf, cap, dp); }
    else if (which == 2) { st = ZyanVectorInitCustomBuffer(&d, es, 0, cap, dp); }
    else { st = ZyanVectorInitCustomBuffer(&d, es, buf, cap, dp); }
    if (which || !es || !cap) { VP(V07, st == ZYAN_STATUS_INVALID_ARGUMENT, "invalid settings are refused"); VH_WITNESS("invalid"); return; }
    VP(V07, st == ZYAN_STATUS_SUCCESS, "a valid construction succeeds");
    VP(V07, d.size == 0 && d.capacity == cap && d.element_size == es && d.destructor == dp && d.data == buf && d.allocator == 0,
        "a new vector on a caller buffer is empty and uses exactly that buffer");
    VP(V03, d.shrink_threshold == 0 && d.growth_factor >= 1, "a vector on a caller buffer never shrinks");
    VH_WITNESS("created");
}

void h_init_default(void)
{
    int dt = nd_bool();
    ZyanMemberProcedure dp = dt ? &dtor : ZYAN_NULL;
    ZyanStatus st = ZyanVectorInit(&d, ES, 2, dp);
    VP(V07, st == ZYAN_STATUS_SUCCESS, "a valid construction succeeds");
    check_new(2, ZyanAllocatorDefault(), ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR, ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD, ES, dp);
    st = ZyanVectorDestroy(&d);
    VP(V07, st == ZYAN_STATUS_SUCCESS, "destroying it succeeds");
    s.allocator = ZYAN_NULL; s.growth_factor = 1; s.shrink_threshold = 0; s.size = 2; s.capacity = 2; s.element_size = ES;
    s.destructor = ZYAN_NULL; s.data = vh_block(2 * ES);
    nd_bytes(s.data, 2 * ES);
    st = ZyanVectorDuplicate(&d, &s, 0);
    VP(V07, st == ZYAN_STATUS_SUCCESS && d.size == 2 && d.capacity >= 2 && d.data != s.data && d.allocator == ZyanAllocatorDefault()
        && d.growth_factor == ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR && d.shrink_threshold == ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD,
        "duplicating with the default allocator");
    VP(V07, memcmp(d.data, s.data, 2 * ES) == 0, "the duplicate has the same elements");
    ZyanVectorDestroy(&d);
    VH_WITNESS("default");
}

void h_dup(void)
{
    n0 = nd_range(0, N);
    k = nd_below(N * ES);
    u64 cap = nd_usize();
    u8 gf = nd_u8(), th = nd_u8();
    int fail = nd_bool(), dt = nd_bool(), which = (int)nd_below(5);
    int custom = nd_bool();
    u64 bcap = nd_range(0, N + 2);
    u8 sgf = nd_range(1, 255), sth = nd_u8();
    vh_alloc_init(fail);
    sbuf = vh_block(N * ES);
    nd_bytes(sbuf, N * ES);
    memcpy(old, sbuf, N * ES);
    u8* dbuf = vh_block((N + 2) * ES);
    nd_bytes(dbuf, (N + 2) * ES);
    u8 dold = dbuf[bcap * ES < (N + 2) * ES ? bcap * ES : 0];
    s.allocator = ZYAN_NULL; s.growth_factor = sgf; s.shrink_threshold = sth; s.size = n0; s.capacity = N; s.element_size = ES;
    s.destructor = dt ? &dtor : ZYAN_NULL; s.data = sbuf;
    if (which == 1) { VP(V07, ZyanVectorDuplicateEx(&d, 0, cap, &vh_allocator, gf, th) == ZYAN_STATUS_INVALID_ARGUMENT, "NULL source is refused"); return; }
    if (which == 2) { VP(V07, ZyanVectorDuplicateEx(0, &s, cap, &vh_allocator, gf, th) == ZYAN_STATUS_INVALID_ARGUMENT, "NULL destination is refused"); return; }
    if (which == 3) { VP(V07, ZyanVectorDuplicateEx(&d, &s, cap, 0, gf, th) == ZYAN_STATUS_INVALID_ARGUMENT, "NULL allocator is refused"); return; }
    ZyanStatus st;
    if (custom) { cap = bcap; st = ZyanVectorDuplicateCustomBuffer(&d, &s, dbuf, bcap); }
    else { st = ZyanVectorDuplicateEx(&d, &s, cap, &vh_allocator, gf, th); }
    VP(V07, s.size == n0 && s.capacity == N && s.data == sbuf && s.element_size == ES && s.growth_factor == sgf && s.shrink_threshold == sth
        && s.allocator == 0 && s.destructor == (dt ? &dtor : ZYAN_NULL), "the source is unchanged");
    VP(V07, sbuf[k] == old[k], "the source's elements are unchanged");
    if (custom && cap < n0)
    {
        VP(V07, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a buffer that is too small is refused");
        VH_WITNESS("small buffer"); return;
    }
    if (custom ? cap == 0 : gf == 0)
    {
        VP(V07, st == ZYAN_STATUS_INVALID_ARGUMENT, "invalid settings are refused");
        VP(A01, vh_alloc_live() == 0, "a refused construction keeps no memory");
        return;
    }
    if (!custom && (fail || vh_too_big))
    {
        VP(V07, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "a failed allocation is passed on");
        VP(A01, vh_alloc_live() == 0, "a failed duplication keeps no memory");
        VH_WITNESS("allocation failed"); return;
    }
    VP(V07, st == ZYAN_STATUS_SUCCESS, "a valid duplication succeeds");
    VP(V07, d.size == n0, "the duplicate has the same number of elements");
    VP(V07, d.capacity >= cap && d.capacity >= n0 && d.capacity >= 1, "the duplicate has at least the requested capacity");
    VP(V07, d.element_size == ES && d.destructor == s.destructor, "the duplicate has the same kind of elements");
    if (custom)
    {
        VP(V07, d.data == dbuf && d.capacity == bcap && d.allocator == 0, "the duplicate uses exactly the caller's buffer");
        VP(V07, bcap == N + 2 || dbuf[bcap * ES] == dold, "bytes behind the buffer are untouched");
        VP(A01, vh_ncalls == 0, "no allocator is called for a caller buffer");
    } else
    {
        VP(V07, d.allocator == &vh_allocator && d.growth_factor == gf && d.shrink_threshold == th, "the duplicate has the requested settings");
        VP(V07, d.data != sbuf, "the duplicate has storage of its own");
        owns();
    }
    if (k < n0 * ES)
    {
        VP(V07, ((u8*)d.data)[k] == old[k], "the duplicate holds the same elements");
        ((u8*)d.data)[k] ^= 0x55;
        VP(V07, sbuf[k] == old[k], "changing the duplicate does not change the source");
    }
    VH_WITNESS_IF(custom && n0 == N, "custom");
    VH_WITNESS_IF(!custom && n0 == N && cap < n0, "dynamic");
    d.destructor = 0;
    destroy_and_check();
}
