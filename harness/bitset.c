/* Bitsets: an arbitrary valid bitset (any number of bits 0..8*CAP, any bits, any leftovers in the
 * last byte), one operation with arbitrary arguments, comparison with a sequence of bits read and
 * compared through ZyanBitsetTest. */
#include "vh_alloc.h"
#include <Zycore/Bitset.h>
#ifndef CAP
#define CAP 3          /* bytes of storage */
#endif
#ifndef GF
#define GF 2
#endif
#ifndef TH
#define TH 2
#endif
#ifndef CUSTOM
#define CUSTOM 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
#define NB (8 * CAP)

static void mk(ZyanBitset* b, u64 n, int custom)
{
    b->size = n;
    b->bits.allocator = custom ? ZYAN_NULL : &vh_allocator;
    b->bits.growth_factor = custom ? 1 : GF;
    b->bits.shrink_threshold = custom ? 0 : TH;
    b->bits.size = n / 8 + (n % 8 != 0);
    b->bits.capacity = CAP;
    b->bits.element_size = 1;
    b->bits.destructor = ZYAN_NULL;
    b->bits.data = custom ? vh_block(CAP) : vh_alloc_adopt(1, CAP, CAP);
    nd_bytes(b->bits.data, CAP);
#ifdef WIN                              /* all bits alike but for one byte anywhere */
    u8 fill = nd_bool() ? 0xFF : 0; u64 at = nd_below(CAP);
    for (unsigned i = 0; i < CAP; ++i) { VH_ASSUME(i == at || ((u8*)b->bits.data)[i] == fill); }
#endif
}
static int bit(const ZyanBitset* b, u64 i)
{
    ZyanStatus st = ZyanBitsetTest((ZyanBitset*)b, i);
    return st == ZYAN_STATUS_TRUE ? 1 : st == ZYAN_STATUS_FALSE ? 0 : -1;
}
#define VB(c, m) do { VP(B01, c, m); VP(B02, c, m); VP(B03, c, m); VP(B04, c, m); } while (0)

static ZyanBitset b; static u64 n, k; static int pre[NB + 1]; static u8 raw[CAP]; static void* data0;
static void setup(int custom)
{
    n = nd_range(0, NB); k = nd_below(NB);
    u64 fail = nd_u64();
    vh_alloc_init(FAIL ? fail : 0);
    mk(&b, n, custom);
    data0 = b.bits.data;
    for (unsigned i = 0; i < CAP; ++i) { raw[i] = ((u8*)b.bits.data)[i]; }
    for (unsigned i = 0; i < NB; ++i) { if (i == k) { pre[i] = k < n ? bit(&b, k) : -1; } }
}
static void valid(u64 want)
{
    u64 sz = 77, by = 77, cp = 77, cb = 77;
    ZyanStatus s1 = ZyanBitsetGetSize(&b, &sz), s2 = ZyanBitsetGetSizeBytes(&b, &by);
    ZyanStatus s3 = ZyanBitsetGetCapacityBytes(&b, &cb), s4 = ZyanBitsetGetCapacity(&b, &cp);
    VB(s1 == ZYAN_STATUS_SUCCESS && sz == want, "the number of bits is right");
    VB(s2 == ZYAN_STATUS_SUCCESS && by == want / 8 + (want % 8 != 0), "the number of bytes fits the number of bits");
    VB(s3 == ZYAN_STATUS_SUCCESS && cb >= by, "the capacity holds the bits");
    VB(s4 == ZYAN_STATUS_SUCCESS && cp == cb * 8, "the capacity in bits is that of the bytes");
    if (!b.bits.allocator) { VB(b.bits.data == data0 && cb == CAP && vh_ncalls == 0, "the caller's buffer is kept"); }
    else
    {
        int found = 0;
        for (unsigned i = 0; i < VH_MAXBLK; ++i) { if (i < vh_nblk && vh_blks[i].live && vh_blks[i].p == b.bits.data && vh_blks[i].n == cb && vh_blks[i].es == 1) { found = 1; } }
        VB(found, "the storage is what the allocator granted");
        VP(A01, found && vh_alloc_live() == 1, "the bitset owns exactly one block");
    }
    if (want < NB) { VB(ZyanBitsetTest(&b, want) == ZYAN_STATUS_OUT_OF_RANGE, "there is no bit behind the last one"); }
}
static void finish(void)
{
    int custom = b.bits.allocator == 0;
    ZyanStatus st = ZyanBitsetDestroy(&b);
    VP(A01, st == ZYAN_STATUS_SUCCESS && vh_alloc_live() == 0 && (!custom || vh_nfree == 0), "destroying the bitset releases everything");
    VB(st == ZYAN_STATUS_SUCCESS, "destroying the bitset succeeds");
}
/* every bit but the one at index i is as before */
static void others(u64 i) { if (k < n && k != i) { VB(bit(&b, k) == pre[k], "the other bits are unchanged"); } }

void h_bit(void)
{
    setup(CUSTOM);
    int w = (int)nd_below(7);
    u64 i = nd_usize();
    u8 val = nd_u8();
    if (w == 5) { i = n - 1; }
    if (w == 6) { i = 0; }
    int was = i < n ? bit(&b, i) : -1;
    VB(was == -1 || was == 0 || was == 1, "a bit is set or not");
    VB((was >= 0) == (i < n), "bits inside the bitset are readable");
    ZyanStatus st; int want = was;
    switch (w)
    {
    case 0: st = ZyanBitsetSet(&b, i); want = 1; break;
    case 1: st = ZyanBitsetReset(&b, i); want = 0; break;
    case 2: st = ZyanBitsetAssign(&b, i, val); want = val != 0; break;
    case 3: st = ZyanBitsetToggle(&b, i); want = !was; break;
    case 4: st = ZyanBitsetTest(&b, i); break;
    case 5: st = ZyanBitsetTestMSB(&b); break;
    default: st = ZyanBitsetTestLSB(&b); break;
    }
    if (i >= n)
    {
        VP(B01, st == ZYAN_STATUS_OUT_OF_RANGE, "an index outside the bitset is refused");
        others(~0ull);
        VH_WITNESS_IF(i < 8 * CAP && n, "index in the unused part");
        VH_WITNESS_IF(i == ~0ull, "no bit at all");
    } else
    {
        VP(B01, st == (w < 4 ? ZYAN_STATUS_SUCCESS : was ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "the status reports success or the bit");
        VP(B01, bit(&b, i) == want, "the addressed bit is as requested");
        others(i);
        VH_WITNESS_IF(w == 0 && i == NB - 1, "set");
        VH_WITNESS_IF(w == 3 && i == 8, "toggle");
        VH_WITNESS_IF(w == 5, "msb");
    }
    valid(n);
    if (FAIL) { finish(); }
}
/* creation */
static u64 cap; static u8 gf, th; static u8* buf;
static void init(u64 count, int fail)
{
    const int custom = CUSTOM;
    u8 guard = 0;
    for (unsigned i = 0; i <= CAP; ++i) { if (i == cap) { guard = buf[i]; } }
    vh_alloc_init(fail);
    data0 = buf;
    /* one extra byte behind the buffer is watched, everything beyond is out of bounds */
    ZyanStatus st = custom ? ZyanBitsetInitBuffer(&b, count, buf, cap) : ZyanBitsetInitEx(&b, count, &vh_allocator, gf, th);
    u64 bytes = count / 8 + (count % 8 != 0);
    for (unsigned i = 0; i <= CAP; ++i) { if (i == cap) { VP(B01, buf[i] == guard, "nothing is written behind the buffer"); } }
    if (custom && bytes > cap)
    {
        VP(B01, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a buffer too small for the bits is refused");
#if CUSTOM
        VH_WITNESS_IF(count == 8 * cap + 1, "buffer too small");
#endif
        return;
    }
    if (custom && cap == 0) { VP(B01, !ZYAN_SUCCESS(st), "a buffer without room is refused"); return; }
    if (!custom && (fail || vh_too_big))
    {
        VP(B01, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "an allocation failure is passed on");
        VP(A01, vh_alloc_live() == 0, "nothing is left allocated");
        VP(B01, vh_ncalls == 1 && vh_last_n >= bytes, "room for every bit is asked for");
#if !CUSTOM
        VH_WITNESS_IF(count == ~0ull, "huge");
#endif
        return;
    }
    VP(B01, st == ZYAN_STATUS_SUCCESS, "a legal bitset is created");
    u64 sz = 77, by = 77;
    VP(B01, ZyanBitsetGetSize(&b, &sz) == ZYAN_STATUS_SUCCESS && sz == count, "the bitset has the requested size");
    VP(B01, ZyanBitsetGetSizeBytes(&b, &by) == ZYAN_STATUS_SUCCESS && by == bytes, "the bitset has the bytes for its bits");
    VP(B01, bit(&b, k) == (k < count ? 0 : -1), "every bit of a new bitset is zero");
    if (custom) { VP(B01, b.bits.data == buf && b.bits.capacity == cap && b.bits.allocator == 0, "the caller's buffer is used as it is"); }
    else
    {
        VP(B01, b.bits.capacity >= bytes && b.bits.growth_factor == gf && b.bits.shrink_threshold == th && b.bits.allocator == &vh_allocator, "the settings are as requested");
        VP(A01, vh_alloc_live() == 1, "the bitset owns exactly one block");
    }
#if CUSTOM
    VH_WITNESS_IF(count == 8 * CAP, "full buffer");
#else
    VH_WITNESS_IF(count == 9 && th == 255, "dynamic");
    VH_WITNESS_IF(count == 0, "empty");
#endif
    finish();
}
void h_init(void)
{
    u64 count = nd_usize();
    cap = nd_range(0, CAP); gf = GF; th = nd_u8();
    k = nd_below(NB + 8);
    buf = vh_block(CAP + 1);
    nd_bytes(buf, CAP + 1);
#if CUSTOM
    init(count, 0);
#else
    /* counts that the storage model can hold are unrolled one by one; for larger ones the allocator
     * refuses and the request is checked */
    for (unsigned i = 0; i <= NB; ++i) { if (i == count) { init(i, 0); return; } }
    init(count, 1);
#endif
}
void h_init_default(void)
{
    u64 count = nd_range(0, NB); k = nd_below(NB);
    VP(B01, ZyanBitsetInit(&b, count) == ZYAN_STATUS_SUCCESS, "a bitset with default settings is created");
    VP(B01, b.size == count && b.bits.allocator == ZyanAllocatorDefault() && b.bits.growth_factor >= 1 && bit(&b, k) == (k < count ? 0 : -1), "every bit of a new bitset is zero");
    VP(B01, ZyanBitsetDestroy(&b) == ZYAN_STATUS_SUCCESS, "destroying the bitset succeeds");
    VH_WITNESS_IF(count == NB, "default");
}
/* push, pop, clear, reserve, shrink */
void h_stack(void)
{
    setup(CUSTOM);
    int w = (int)nd_below(5);
    u8 val = nd_u8();
    u64 cnt = nd_usize();
    u64 cap0 = b.bits.capacity;
    ZyanStatus st;
    switch (w)
    {
    case 0:
        st = ZyanBitsetPush(&b, val);
        if (!ZYAN_SUCCESS(st))
        {
            VP(B02, n == NB && (CUSTOM || vh_nfailed || vh_too_big), "a push with room succeeds");
            VP(B02, st == (CUSTOM ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY), "the reason of a refused push is passed on");
            valid(n); others(~0ull);
#if CUSTOM || FAIL
            VH_WITNESS("push refused");
#endif
        } else
        {
            VP(B02, st == ZYAN_STATUS_SUCCESS, "a push reports success");
            VP(B02, n < NB || !CUSTOM, "a full buffer takes no more bits");
            valid(n + 1); others(~0ull);
            VP(B02, bit(&b, n) == (val != 0), "the new bit is the given one");
            VH_WITNESS_IF(n == NB - 1 && val == 2, "pushed");
            VH_WITNESS_IF(n == NB - 8 && !val, "pushed a new byte");
#if !CUSTOM
            VH_WITNESS_IF(n == NB, "grown");
#endif
        }
        break;
    case 1:
        st = ZyanBitsetPop(&b);
        if (!n)
        {
            VP(B02, st == ZYAN_STATUS_OUT_OF_RANGE || st == ZYAN_STATUS_INVALID_OPERATION, "an empty bitset has nothing to pop");
            valid(0);
            VH_WITNESS("pop empty");
        } else
        {
            /* giving memory back may fail; the bit is gone all the same */
            VP(B02, st == ZYAN_STATUS_SUCCESS || (vh_nfailed && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY), "a pop succeeds");
            valid(n - 1); others(n - 1);
            VH_WITNESS_IF(n == 9, "pop");
        }
        break;
    case 2:
        st = ZyanBitsetClear(&b);
        if (!ZYAN_SUCCESS(st) && vh_nfailed) { if (b.size) { valid(n); others(~0ull); } else { valid(0); } break; }
        VP(B02, st == ZYAN_STATUS_SUCCESS, "clearing succeeds");
        valid(0);
        VH_WITNESS_IF(n == NB, "cleared");
        break;
    case 3:
        st = ZyanBitsetReserve(&b, cnt);
        if (cnt <= NB) { VP(B02, st == ZYAN_STATUS_SUCCESS && b.bits.capacity == cap0, "reserving what is there does nothing"); }
        else if (!ZYAN_SUCCESS(st)) { VP(B02, CUSTOM || vh_nfailed || vh_too_big, "reserving succeeds if there is memory"); }
        else { VP(B02, b.bits.capacity * 8 >= cnt || cnt / 8 >= b.bits.capacity - 1, "the reserved room is there"); VP(B02, b.bits.capacity >= cnt / 8 + (cnt % 8 != 0), "the reserved room is there"); }
        valid(n); others(~0ull);
        VH_WITNESS_IF(cnt == NB, "reserve");
#if !CUSTOM
        VH_WITNESS_IF(cnt > NB && ZYAN_SUCCESS(st), "reserve more");
        VH_WITNESS_IF(cnt == ~0ull, "reserve too much");
#endif
        break;
    default:
        st = ZyanBitsetShrinkToFit(&b);
        VP(B02, ZYAN_SUCCESS(st) || CUSTOM || vh_nfailed, "shrinking succeeds");
        valid(n); others(~0ull);
        VH_WITNESS_IF(n == 9, "shrunk");
        break;
    }
    finish();
}
/* queries */
void h_query(void)
{
    setup(CUSTOM);
    u64 count = 77, want = 0;
    for (unsigned i = 0; i < NB; ++i) { if (i < n) { want += bit(&b, i) == 1; } }
    VP(B03, ZyanBitsetCount(&b, &count) == ZYAN_STATUS_SUCCESS && count == want, "count is the number of set bits");
    VP(B03, ZyanBitsetAll(&b) == (want == n ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "all tells whether every bit is set");
    VP(B03, ZyanBitsetAny(&b) == (want ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "any tells whether some bit is set");
    VP(B03, ZyanBitsetNone(&b) == (want ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE), "none tells whether no bit is set");
    others(~0ull);
    valid(n);
    VH_WITNESS_IF(n == NB - 3 && want == n, "all set in a partial byte");
    VH_WITNESS_IF(n == NB && !want, "none");
    VH_WITNESS_IF(n == 0, "empty");
}
/* whole-set operations */
static unsigned ops; static u8 opr;
static ZyanStatus op(ZyanU8* x, const ZyanU8* y) { ++ops; *x = (u8)(*x & ~*y); return ops > opr ? ZYAN_STATUS_FAILED : ZYAN_STATUS_SUCCESS; }
void h_sets(void)
{
    setup(CUSTOM);
    ZyanBitset c; u64 m = nd_range(0, NB);
    int w = (int)nd_below(7); int self = nd_bool();
    opr = (u8)nd_below(CAP + 1); ops = 0;
    c.bits.data = 0;
    mk(&c, m, 1);
    if (self) { m = n; }
    ZyanBitset* src = self ? &b : &c;
    int y = k < m ? bit(src, k) : -1, x = k < n ? pre[k] : -1;
    ZyanStatus st;
    switch (w)
    {
    case 0: st = ZyanBitsetAND(&b, src); break;
    case 1: st = ZyanBitsetOR(&b, src); break;
    case 2: st = ZyanBitsetXOR(&b, src); break;
    case 3: st = ZyanBitsetFlip(&b); break;
    case 4: st = ZyanBitsetSetAll(&b); break;
    case 5: st = ZyanBitsetResetAll(&b); break;
    default: st = ZyanBitsetPerformByteOperation(&b, src, op); break;
    }
    u64 shared = b.bits.size < src->bits.size ? b.bits.size : src->bits.size;
    if (w == 6 && shared > opr)
    {
        VP(B04, st == ZYAN_STATUS_FAILED && ops == opr + 1u, "a failing operation ends the pass and is passed on");
        VH_WITNESS("failing operation");
    } else
    {
        VP(B04, st == ZYAN_STATUS_SUCCESS, "the operation succeeds");
        if (x >= 0 && w < 3 && y >= 0) { VP(B04, bit(&b, k) == (w == 0 ? x & y : w == 1 ? x | y : x ^ y), "each common bit is the combination of both"); }
        if (x >= 0 && w < 3 && k / 8 >= shared) { VP(B04, bit(&b, k) == x, "bytes beyond the shorter bitset are unchanged"); }
        if (x >= 0 && w >= 3 && w < 6) { VP(B04, bit(&b, k) == (w == 3 ? !x : w == 4), "each bit is inverted, set or cleared"); }
        if (x >= 0 && w == 6 && y >= 0) { VP(B04, bit(&b, k) == (x & !y), "a byte operation is applied to each common byte"); }
        if (w == 6) { VP(B04, ops == shared, "a byte operation is applied once to each common byte"); }
    }
    valid(n);
    VP(B04, c.size == (self ? c.size : m), "the size of the source is unchanged");
    if (!self && k < m) { VP(B04, bit(&c, k) == y, "the source is unchanged"); }
    VH_WITNESS_IF(w == 0 && !self && n == NB && m == 9, "and");
    VH_WITNESS_IF(w == 2 && self && n == NB, "xor with itself");
    VH_WITNESS_IF(w == 3 && n == NB - 3, "flip");
}
void h_null(void)
{
    u64 x = nd_usize(), y = 77; int w = (int)nd_below(26); u8 z[4] = {0};
    ZyanStatus st;
    ZyanBitset c;
    vh_alloc_init(0);
    mk(&b, 5, 1);
    switch (w)
    {
    case 0: st = ZyanBitsetInitEx(0, 8, &vh_allocator, 2, 2); break;
    case 1: st = ZyanBitsetInitBuffer(0, 8, z, 4); break;
    case 2: st = ZyanBitsetDestroy(0); break;
    case 3: st = ZyanBitsetPerformByteOperation(0, &b, op); break;
    case 4: st = ZyanBitsetPerformByteOperation(&b, 0, op); break;
    case 5: st = ZyanBitsetPerformByteOperation(&b, &b, 0); break;
    case 6: st = ZyanBitsetFlip(0); break;
    case 7: st = ZyanBitsetSet(0, x); break;
    case 8: st = ZyanBitsetReset(0, x); break;
    case 9: st = ZyanBitsetAssign(0, x, 1); break;
    case 10: st = ZyanBitsetToggle(0, x); break;
    case 11: st = ZyanBitsetTest(0, x); break;
    case 12: st = ZyanBitsetTestMSB(0); break;
    case 13: st = ZyanBitsetTestLSB(0); break;
    case 14: st = ZyanBitsetSetAll(0); break;
    case 15: st = ZyanBitsetResetAll(0); break;
    case 16: st = ZyanBitsetPush(0, 1); break;
    case 17: st = ZyanBitsetPop(0); break;
    case 18: st = ZyanBitsetClear(0); break;
    case 19: st = ZyanBitsetReserve(0, x); break;
    case 20: st = ZyanBitsetShrinkToFit(0); break;
    case 21: st = ZyanBitsetGetSize(0, &y); break;
    case 22: st = ZyanBitsetCount(0, &y); break;
    case 24: st = ZyanBitsetInitEx(&c, 8, &vh_allocator, 0, 2); break;
    case 23: st = ZyanBitsetInitBuffer(&c, 8, 0, 4); break;
    default: st = ZyanBitsetAll(0); if (st == ZYAN_STATUS_INVALID_ARGUMENT) { st = ZyanBitsetAny(0); } if (st == ZYAN_STATUS_INVALID_ARGUMENT) { st = ZyanBitsetNone(0); } break;
    }
    VB(st == ZYAN_STATUS_INVALID_ARGUMENT && y == 77, "a missing argument is refused");
    VH_WITNESS("null");
}
