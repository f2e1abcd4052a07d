/* The default allocator: what it asks of the libc heap, for all element sizes and counts. */
#include "vh.h"
#include <Zycore/Allocator.h>
#undef malloc

static u64 req; static unsigned calls, frees; static void* freed; static int fail; static void* old_p; static int zeroing;
static u8 blk[16], blk2[16];
void* vh_h_malloc(size_t n) { ++calls; req = n; return fail ? 0 : (void*)blk; }
void* vh_h_calloc(size_t a, size_t n)
{
    ++calls;
    unsigned __int128 w = (unsigned __int128)a * n;
    int ovf = (w >> 64) != 0;
    req = a * n;
    return fail || ovf ? 0 : (void*)blk;
}
void* vh_h_realloc(void* p, size_t n) { ++calls; req = n; old_p = p; if (fail) { return 0; } if (p) { memcpy(blk2, p, 16); } return blk2; }
void vh_h_free(void* p) { ++frees; freed = p; }

#ifndef CASE
#define CASE 0
#endif
/* A symbolic 64-bit product of two symbolic factors is out of the SAT solver's reach, so one factor
 * runs through this list of constants while the other takes all 2^64 values. */
static const u64 consts[] = { 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 40, 100, 4096, 0x7FFFFFFFull, 0xFFFFFFFFull, 0x100000000ull,
    0x100000001ull, 0x5555555555555556ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull };
#define NC (sizeof(consts) / sizeof(consts[0]))
static u64 es, n; static int too_big;
static u64 a_; static int fail_;
static void args(void) { a_ = nd_u64(); fail_ = nd_bool(); VH_ASSUME(a_ != 0); }
static void pick(unsigned i)
{
    u64 lim = ~0ull / consts[i];
    calls = frees = 0; req = 0; freed = 0; fail = fail_;
    es = CASE == 0 ? consts[i] : a_; n = CASE == 0 ? a_ : consts[i];
    too_big = a_ > lim;
}
static void check(ZyanStatus st)
{
    if (too_big || (fail && calls))
    {
        VP(A02, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "an impossible or failed request is reported as not enough memory");
        VP(A02, frees == 0, "nothing is freed by a failed request");
    } else
    {
        VP(A02, st == ZYAN_STATUS_SUCCESS, "a possible request succeeds");
        VP(A02, req >= es * n, "at least element size times count bytes are requested");
        VP(A02, calls == 1, "the heap is asked once");
    }
}
void h_allocate(void)
{
    args();
    ZyanAllocator* a = ZyanAllocatorDefault();
    VP(A02, a && a->allocate && a->reallocate && a->deallocate, "the default allocator is complete");
    for (unsigned i = 0; i < NC; ++i)
    {
        pick(i);
        void* p = 0;
        ZyanStatus st = a->allocate(a, &p, es, n);
        check(st);
        if (ZYAN_SUCCESS(st)) { VP(A02, p == blk, "the block handed out is the heap's"); }
        VH_WITNESS_IF(too_big && i == 8, "overflow refused");
        VH_WITNESS_IF(!ZYAN_SUCCESS(st) && !too_big && i == 8, "heap failure reported");
        VH_WITNESS_IF(ZYAN_SUCCESS(st) && i == 8, "granted");
    }
}
void h_reallocate(void)
{
    args();
    u64 k = nd_below(16);
    u8 o = nd_u8();
    ZyanAllocator* a = ZyanAllocatorDefault();
    for (unsigned i = 0; i < NC; ++i)
    {
        pick(i);
        blk[k] = o;
        void* p = blk;
        ZyanStatus st = a->reallocate(a, &p, es, n);
        check(st);
        if (ZYAN_SUCCESS(st)) { VP(A02, p != 0 && (k >= req || ((u8*)p)[k] == o), "the content is kept"); }
        else { VP(A02, p == blk && blk[k] == o, "a failed reallocation leaves the old block"); }
        VH_WITNESS_IF(too_big && i == 8, "overflow refused");
        VH_WITNESS_IF(!ZYAN_SUCCESS(st) && !too_big && i == 8, "heap failure reported");
        VH_WITNESS_IF(ZYAN_SUCCESS(st) && i == 8, "granted");
    }
}
void h_deallocate(void)
{
    args();
    u64 e = nd_u64();
    VH_ASSUME(e != 0);
    ZyanAllocator* a = ZyanAllocatorDefault();
    ZyanStatus st = a->deallocate(a, blk, e, a_);
    VP(A02, st == ZYAN_STATUS_SUCCESS && frees == 1 && freed == blk && calls == 0, "deallocation frees exactly the given block");
    VH_WITNESS("end");
}
static ZyanStatus f1(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize m) { (void)a; (void)p; (void)e; (void)m; return 0; }
static ZyanStatus f2(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize m) { (void)a; (void)p; (void)e; (void)m; return 1; }
static ZyanStatus f3(ZyanAllocator* a, void* p, ZyanUSize e, ZyanUSize m) { (void)a; (void)p; (void)e; (void)m; return 2; }
void h_init(void)
{
    u64 m = nd_below(16);
    ZyanAllocator x;
    ZyanStatus st = ZyanAllocatorInit((m & 1) ? 0 : &x, (m & 2) ? 0 : &f1, (m & 4) ? 0 : &f2, (m & 8) ? 0 : &f3);
    if (m) { VP(A02, st == ZYAN_STATUS_INVALID_ARGUMENT, "a missing callback is refused"); VH_WITNESS("missing"); }
    else
    {
        VP(A02, st == ZYAN_STATUS_SUCCESS && x.allocate == &f1 && x.reallocate == &f2 && x.deallocate == &f3, "the three callbacks are stored");
        VP(A02, ZyanAllocatorDefault() == ZyanAllocatorDefault(), "the default allocator is one object");
        VH_WITNESS("stored");
    }
}
