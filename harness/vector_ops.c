/* One-step harnesses for ZyanVector: an arbitrary valid vector (any size <= CAP, any content), one
 * operation with arbitrary arguments, the result compared with the abstract sequence, then the
 * vector is destroyed.
 * Parameters: CAP, ES (element size), GF (growth factor), TH (shrink threshold), CUSTOM (1: fixed
 * caller buffer, 0: checking allocator), MAXC (longest inserted range), FAIL (1: arbitrary allocator
 * failures), DTOR (1: with a destructor; elements then carry an identity in their first byte). */
#include "vh_alloc.h"
#include <Zycore/Vector.h>

#ifndef CAP
#define CAP 3
#endif
#ifndef ES
#define ES 2
#endif
#ifndef GF
#define GF 2
#endif
#ifndef TH
#define TH 4
#endif
#ifndef CUSTOM
#define CUSTOM 0
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef DTOR
#define DTOR 0
#endif
#if CUSTOM
#define EGF 1
#define ETH 0
#else
#define EGF GF
#define ETH TH
#endif

static ZyanVector v;
static u8 old[CAP * ES];       /* content before */
static u64 n0;                 /* size before */
static u64 k;                  /* an arbitrary position, so that one comparison covers all */
static u8* buf0;
static u8* src;                /* MAXC caller elements */
static u8 in[MAXC * ES];
static u64 final_n;            /* size after the operation, for the destruction */

/* destructor log by identity: 0..CAP-1 old elements, CAP.. inserted ones */
static u64 dt_calls; static u8 dt_hit[CAP + MAXC]; static int dt_bad;
static void dtor(void* e)
{
    u8 id = ((u8*)e)[0];
    ++dt_calls;
    if (id >= CAP + MAXC) { dt_bad = 1; return; }
    ++dt_hit[id];
    const u8* w = id < CAP ? old + id * ES : in + (id - CAP) * ES;
    for (unsigned b = 0; b < ES; ++b) { if (((u8*)e)[b] != w[b]) { dt_bad = 1; } }
}

static void setup(void)
{
    n0 = nd_range(0, CAP);
    k = nd_u64();
    u64 fail = nd_u64();
    vh_alloc_init(FAIL ? fail : 0);
    v.allocator = CUSTOM ? ZYAN_NULL : &vh_allocator;
    v.growth_factor = EGF;
    v.shrink_threshold = ETH;
    v.size = n0;
    v.capacity = CAP;
    v.element_size = ES;
    v.destructor = DTOR ? &dtor : ZYAN_NULL;
    v.data = CUSTOM ? vh_block(CAP * ES) : vh_alloc_adopt(ES, CAP, CAP * ES);
    nd_bytes(v.data, CAP * ES);
    src = vh_block(MAXC * ES);
    nd_bytes(src, MAXC * ES);
    if (DTOR)
    {
        for (unsigned i = 0; i < CAP; ++i) { ((u8*)v.data)[i * ES] = i; }
        for (unsigned i = 0; i < MAXC; ++i) { src[i * ES] = CAP + i; }
    }
    for (unsigned i = 0; i < CAP * ES; ++i) { old[i] = ((u8*)v.data)[i]; }
    for (unsigned i = 0; i < MAXC * ES; ++i) { in[i] = src[i]; }
    buf0 = v.data;
}

/* representation invariant + nothing else changed */
static void check_valid(void)
{
    VP(V01, v.size <= v.capacity, "size never exceeds capacity");
    VP(V02, v.size <= v.capacity, "size never exceeds capacity");
    VP(V05, v.size <= v.capacity, "size never exceeds capacity");
    VP(V01, v.element_size == ES, "element size is unchanged");
    VP(V04, v.destructor == (DTOR ? &dtor : ZYAN_NULL), "destructor is unchanged");
    VP(V03, v.growth_factor == EGF && v.shrink_threshold == ETH, "growth factor and shrink threshold are unchanged");
    if (CUSTOM)
    {
        VP(V03, v.data == buf0 && v.capacity == CAP && v.allocator == ZYAN_NULL,
            "a vector on a caller-supplied buffer keeps that buffer and its capacity");
        VP(A01, vh_ncalls == 0 && vh_nfree == 0, "a vector on a caller-supplied buffer calls no allocator");
    } else
    {
        VP(V01, v.allocator == &vh_allocator, "allocator is unchanged");
        VP(A01, vh_alloc_live() == 1, "the vector owns exactly one block");
        for (unsigned i = 0; i < VH_MAXBLK; ++i)
        {
            if (i < vh_nblk && vh_blks[i].live)
            {
                VP(V02, vh_blks[i].p == v.data, "the vector's storage is its live block");
                VP(V03, vh_blks[i].n == v.capacity, "the reported capacity is what the allocator granted");
                VP(V05, vh_blks[i].p == v.data && vh_blks[i].n == v.capacity, "storage and capacity match the live block");
                VP(A01, vh_blks[i].p == v.data && vh_blks[i].n == v.capacity, "storage and capacity match the live block");
            }
        }
    }
}

static void check_size(u64 expect)
{
    u64 s = ~expect, c = 0;
    VP(V01, v.size == expect, "size after the operation");
    VP(V02, v.size == expect, "size after the operation");
    VP(V05, v.size == expect, "size after the operation");
    VP(V01, ZyanVectorGetSize(&v, &s) == ZYAN_STATUS_SUCCESS && s == expect, "GetSize reports the size");
    VP(V03, ZyanVectorGetCapacity(&v, &c) == ZYAN_STATUS_SUCCESS && c == v.capacity, "GetCapacity reports the capacity");
    final_n = expect;
}

/* element i of the vector equals the ES bytes at p */
static int elem_is(u64 i, const u8* p)
{
    const u8* e = ZyanVectorGet(&v, i);
    if (!e) { return 0; }
    for (unsigned b = 0; b < ES; ++b) { if (e[b] != p[b]) { return 0; } }
    return 1;
}

static void check_unchanged(int rejected)
{
    check_size(n0);
    if (k < n0)
    {
        int same = elem_is(k, old + k * ES);
        VP(V01, same, "a refused operation changes no element");
        VP(V02, same, "a refused operation changes no element");
        VP(V05, same, "a refused operation changes no element");
    }
    VP(V04, dt_calls == 0, "a refused operation destroys nothing");
    VP(V02, !rejected || (v.data == buf0 && v.capacity == CAP), "a refused operation leaves the storage alone");
}

/* growth was refused: nothing may have changed at all */
static void check_no_room(ZyanStatus st)
{
    if (CUSTOM)
    {
        VP(V03, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a full fixed buffer is reported as such");
        VP(V05, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a full fixed buffer is reported as such");
    } else
    {
        VP(V05, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "an allocator failure is passed on");
    }
    VP(V01, !ZYAN_SUCCESS(st), "a request without room for it is refused");
    check_unchanged(0);
    VP(V05, v.data == buf0 && v.capacity == CAP, "a failed growth keeps storage and capacity");
}

/* capacity after growing to `need` / after shrinking to `size` */
static void check_grow(u64 need)
{
    u64 c = need > CAP ? need * EGF : CAP;
    VP(V03, v.capacity == c, "growth: capacity is kept, or becomes the needed size times the growth factor");
    VP(V03, need > CAP || (vh_nrealloc == 0 && v.data == buf0), "no reallocation while the size fits the capacity");
}
static void check_shrink(u64 size)
{
    u64 c = CAP;
    if (ETH && size * ETH < CAP) { c = size * EGF; if (c < 1) { c = 1; } }
    VP(V03, v.capacity == c, "shrink: capacity is kept, or becomes the size times the growth factor (at least one)");
    VP(V03, (ETH && size * ETH < CAP) || vh_nrealloc == 0, "no reallocation while above the shrink threshold");
}

/* a removal of [idx, idx+cnt) that went through */
static void check_removed(ZyanStatus st, u64 idx, u64 cnt)
{
    check_size(n0 - cnt);
    if (k < n0 - cnt)
    {
        int ok = elem_is(k, old + (k < idx ? k : k + cnt) * ES);
        VP(V01, ok, "deletion: prefix kept, suffix moved down");
        VP(V02, ok, "deletion: prefix kept, suffix moved down");
        VP(V05, ok, "deletion: exactly the remaining elements are left");
    }
    if (DTOR)
    {
        VP(V04, !dt_bad, "destructors only see elements of the vector, intact");
        VP(V04, dt_calls == cnt, "as many destructor calls as removed elements");
        if (k < n0) { VP(V04, dt_hit[k] == (k >= idx && k < idx + cnt), "each removed element is destroyed once, no other"); }
    }
    if (ZYAN_SUCCESS(st)) { check_shrink(n0 - cnt); }
}

/* result of a removal request; a failing shrink may be reported */
static void removal(ZyanStatus st, u64 idx, u64 cnt)
{
    if (ZYAN_SUCCESS(st))
    {
        VP(V01, st == ZYAN_STATUS_SUCCESS, "a legal removal succeeds");
        check_removed(st, idx, cnt);
    } else
    {
        VP(V01, vh_nfailed > 0, "a legal removal succeeds");
        VP(V05, vh_nfailed > 0 && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "a removal only fails when the allocator did");
        /* then the removal is either complete, or has not happened */
        if (v.size == n0) { check_unchanged(0); }
        else { check_removed(st, idx, cnt); }
    }
}

static void finish(int ids_known)
{
    check_valid();
    u64 calls = dt_calls;
    ZyanStatus st = ZyanVectorDestroy(&v);
    VP(A01, st == ZYAN_STATUS_SUCCESS, "destroying a vector succeeds");
    VP(V04, st == ZYAN_STATUS_SUCCESS, "destroying a vector succeeds");
    VP(A01, vh_alloc_live() == 0, "no block is left after destroying the vector");
    VP(A01, !CUSTOM || (vh_nfree == 0 && vh_ncalls == 0), "a vector on a caller-supplied buffer calls no allocator");
    if (DTOR)
    {
        VP(V04, dt_calls - calls == final_n, "destroying the vector destroys each remaining element");
        if (ids_known)
        {
            VP(V04, !dt_bad, "destructors only see elements of the vector, intact");
            if (k < n0) { VP(V04, dt_hit[k] == 1, "in the end every element was destroyed exactly once"); }
        }
    }
}

void h_insert(void)
{
    setup();
    u64 idx = nd_usize();
    u64 cnt = nd_range(0, MAXC);
    int mode = (int)nd_below(3);
    ZyanStatus st;
    if (mode == 0) { st = ZyanVectorInsertRange(&v, idx, src, cnt); }
    else if (mode == 1) { cnt = 1; st = ZyanVectorInsert(&v, idx, src); }
    else { cnt = 1; idx = n0; st = ZyanVectorPushBack(&v, src); }

    if (idx > n0 || cnt == 0)
    {
        VP(V02, idx <= n0 || !ZYAN_SUCCESS(st), "insertion beyond the end fails");
        VP(V02, idx <= n0 || cnt == 0 || st == ZYAN_STATUS_OUT_OF_RANGE, "insertion beyond the end is out of range");
        VP(V01, cnt != 0 || idx > n0 || st == ZYAN_STATUS_SUCCESS || st == ZYAN_STATUS_INVALID_ARGUMENT, "empty insertion");
        check_unchanged(1);
        VH_WITNESS_IF(idx > n0 + 1, "insert rejected");
    } else if (n0 + cnt > CAP && (CUSTOM || vh_nfailed))
    {
        check_no_room(st);
    } else
    {
        VP(V01, st == ZYAN_STATUS_SUCCESS, "a legal insertion succeeds");
        VP(V05, st == ZYAN_STATUS_SUCCESS, "a legal insertion succeeds");
        check_size(n0 + cnt);
        if (k < n0 + cnt)
        {
            const u8* e = k < idx ? old + k * ES : k < idx + cnt ? in + (k - idx) * ES : old + (k - cnt) * ES;
            int ok = elem_is(k, e);
            VP(V01, ok, "insertion: prefix kept, new elements placed, suffix shifted");
            VP(V02, ok, "insertion: prefix kept, new elements placed, suffix shifted");
        }
        VP(V04, dt_calls == 0, "an insertion destroys nothing");
        check_grow(n0 + cnt);
        VH_WITNESS_IF(cnt == 1 && mode == 2, "push_back");
        VH_WITNESS_IF(mode == 1 && idx < n0, "insert in the middle");
        VH_WITNESS_IF(mode == 0 && cnt == MAXC, "insert_range");
    }
    finish(1);
}

void h_delete(void)
{
    setup();
    u64 idx = nd_usize();
    u64 cnt = nd_usize();
    int mode = (int)nd_below(3);
    ZyanStatus st;
    if (mode == 0) { st = ZyanVectorDeleteRange(&v, idx, cnt); }
    else if (mode == 1) { cnt = 1; st = ZyanVectorDelete(&v, idx); }
    else { cnt = 1; idx = n0 - 1; st = ZyanVectorPopBack(&v); }
    int legal = idx <= n0 && cnt <= n0 - idx;
    if (!legal || cnt == 0)
    {
        VP(V02, legal || st == ZYAN_STATUS_OUT_OF_RANGE || (cnt == 0 && st == ZYAN_STATUS_INVALID_ARGUMENT),
            "deleting beyond the end is refused as out of range");
        VP(V01, !legal || st == ZYAN_STATUS_SUCCESS || st == ZYAN_STATUS_INVALID_ARGUMENT, "empty deletion");
        check_unchanged(1);
        VH_WITNESS_IF(idx > n0 && mode == 0, "delete rejected");
    } else
    {
        removal(st, idx, cnt);
        VH_WITNESS_IF(mode == 0 && idx + cnt < n0, "delete range in the middle");
        VH_WITNESS_IF(mode == 2, "pop back");
    }
    finish(1);
}

/* emplace: the constructor writes the element, or fails */
static ZyanStatus ctor_status; static u8* ctor_at; static int ctor_calls;
static ZyanStatus ctor(void* e)
{
    ++ctor_calls;
    ctor_at = e;
    for (unsigned b = 0; b < ES; ++b) { ((u8*)e)[b] = in[b]; }
    return ctor_status;
}
void h_emplace(void)
{
    setup();
    u64 idx = nd_usize();
    int mode = (int)nd_below(2), with_ctor = nd_bool(), fails = nd_bool();
    ctor_status = fails ? ZYAN_STATUS_FAILED : ZYAN_STATUS_SUCCESS;
    void* e = 0;
    ZyanStatus st;
    if (mode == 0) { st = ZyanVectorEmplaceEx(&v, idx, &e, with_ctor ? &ctor : ZYAN_NULL); }
    else { idx = n0; st = ZyanVectorEmplace(&v, &e, with_ctor ? &ctor : ZYAN_NULL); }
    if (idx > n0)
    {
        VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE, "emplacing beyond the end is out of range");
        check_unchanged(1);
        VP(V02, ctor_calls == 0, "no constructor call for a refused request");
        VH_WITNESS("emplace rejected");
    } else if (n0 + 1 > CAP && (CUSTOM || vh_nfailed))
    {
        check_no_room(st);
        VP(V05, ctor_calls == 0, "no constructor call without storage");
    } else if (with_ctor && fails)
    {
        VP(V05, st == ZYAN_STATUS_FAILED, "the constructor's failure is passed on");
        VP(V01, !ZYAN_SUCCESS(st), "the constructor's failure is passed on");
        check_unchanged(0);
        VH_WITNESS_IF(idx < n0, "constructor fails in the middle");
    } else
    {
        VP(V01, st == ZYAN_STATUS_SUCCESS, "a legal emplace succeeds");
        check_size(n0 + 1);
        VP(V01, e == ZyanVectorGet(&v, idx), "the returned pointer is the new element");
        VP(V01, !with_ctor || (ctor_calls == 1 && ctor_at == e), "the constructor runs once, on the new element");
        VP(V02, e == (u8*)v.data + idx * ES, "the returned pointer is the new element");
        if (!with_ctor) { for (unsigned b = 0; b < ES; ++b) { ((u8*)e)[b] = in[b]; } }
        if (k < n0 + 1)
        {
            const u8* w = k < idx ? old + k * ES : k == idx ? in : old + (k - 1) * ES;
            VP(V01, elem_is(k, w), "emplace: prefix kept, suffix shifted");
        }
        VP(V04, dt_calls == 0, "an emplace destroys nothing");
        check_grow(n0 + 1);
        VH_WITNESS_IF(idx < n0 && with_ctor, "emplace in the middle");
    }
    finish(1);
}

void h_set_swap(void)
{
    setup();
    u64 idx = nd_usize(), idx2 = nd_usize();
    int mode = (int)nd_below(2);
    ZyanStatus st;
    int ids = 1;
    if (mode == 0)
    {
        st = ZyanVectorSet(&v, idx, src);
        if (idx >= n0)
        {
            VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE, "setting an element beyond the end is out of range");
            check_unchanged(1);
            VH_WITNESS("set rejected");
        } else
        {
            VP(V01, st == ZYAN_STATUS_SUCCESS, "setting an element succeeds");
            check_size(n0);
            if (k < n0) { VP(V01, elem_is(k, k == idx ? in : old + k * ES), "exactly the addressed element is replaced"); }
            if (DTOR)
            {
                VP(V04, !dt_bad, "destructors only see elements of the vector, intact");
                VP(V04, dt_calls == 1 && dt_hit[idx] == 1, "the replaced element is destroyed once, no other");
            }
            VP(V03, v.capacity == CAP && vh_nrealloc == 0, "setting never reallocates");
            VH_WITNESS("set");
        }
    } else
    {
        st = ZyanVectorSwapElements(&v, idx, idx2);
        if (idx >= n0 || idx2 >= n0)
        {
            VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE, "swapping elements beyond the end is out of range");
            check_unchanged(1);
            VH_WITNESS("swap rejected");
        } else if (!ZYAN_SUCCESS(st))
        {
            VP(V01, n0 == CAP && st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "swapping is refused only without spare room");
            check_unchanged(1);
        } else
        {
            VP(V01, st == ZYAN_STATUS_SUCCESS, "swapping succeeds");
            check_size(n0);
            if (k < n0)
            {
                u64 w = k == idx ? idx2 : k == idx2 ? idx : k;
                VP(V01, elem_is(k, old + w * ES), "exactly the two elements are exchanged");
            }
            VP(V04, dt_calls == 0, "swapping destroys nothing");
            VP(V03, v.capacity == CAP && vh_nrealloc == 0, "swapping never reallocates");
            VH_WITNESS_IF(idx != idx2, "swap");
        }
    }
    finish(ids);
}

void h_resize(void)
{
    setup();
    u64 n = nd_usize();
    int mode = (int)nd_below(3);
    const void* init = mode == 1 ? src : 0;
    ZyanStatus st;
    if (mode == 0) { st = ZyanVectorResize(&v, n); }
    else if (mode == 1) { st = ZyanVectorResizeEx(&v, n, src); }
    else { n = 0; st = ZyanVectorClear(&v); }
    if (n > CAP && (CUSTOM || vh_nfailed || vh_too_big || n > VH_MAXBYTES))
    {
        check_no_room(st);
        VH_WITNESS_IF(n > ((u64)1 << 63), "huge resize refused");
    } else if (n < n0)
    {
        removal(st, n, n0 - n);
        VH_WITNESS_IF(mode == 2, "clear");
        VH_WITNESS_IF(mode == 1 && n > 0, "resize down");
    } else
    {
        if (n > CAP || vh_nfailed == 0)
        {
            VP(V01, st == ZYAN_STATUS_SUCCESS, "a legal resize succeeds");
            VP(V05, st == ZYAN_STATUS_SUCCESS, "a legal resize succeeds");
        }
        if (ZYAN_SUCCESS(st))
        {
            check_size(n);
            if (k < n0) { VP(V01, elem_is(k, old + k * ES), "growing keeps the old elements"); }
            else if (k < n && init) { VP(V01, elem_is(k, in), "new elements are copies of the initializer"); }
            VP(V04, dt_calls == 0, "growing destroys nothing");
            if (n > CAP) { check_grow(n); } else if (n != n0) { check_shrink(n); }
            VH_WITNESS_IF(n > n0 && mode == 1, "resize up");
        } else
        {
            check_unchanged(0);
        }
    }
    finish(n <= n0 || v.size == n0);
}

void h_reserve(void)
{
    setup();
    u64 c = nd_usize();
    int mode = (int)nd_below(2);
    ZyanStatus st;
    if (mode == 0)
    {
        st = ZyanVectorReserve(&v, c);
        if (c > CAP && (CUSTOM || vh_nfailed || vh_too_big || c > VH_MAXBYTES)) { check_no_room(st); VH_WITNESS("reserve refused"); }
        else
        {
            VP(V01, st == ZYAN_STATUS_SUCCESS, "reserve succeeds");
            VP(V03, st == ZYAN_STATUS_SUCCESS && v.capacity == (c > CAP ? c : CAP), "reserve gives the requested capacity and never shrinks");
            check_unchanged(0);
            VP(V03, c > CAP || vh_nrealloc == 0, "reserve below the capacity does not reallocate");
            VH_WITNESS_IF(CUSTOM || c > CAP, "reserve");
        }
    } else
    {
        st = ZyanVectorShrinkToFit(&v);
        check_unchanged(0);
        if (vh_nfailed) { VP(V05, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY && v.capacity == CAP && v.data == buf0, "a failed shrink-to-fit changes nothing"); }
        else
        {
            VP(V01, st == ZYAN_STATUS_SUCCESS, "shrink-to-fit succeeds");
            VP(V03, st == ZYAN_STATUS_SUCCESS, "shrink-to-fit succeeds");
            VP(V03, v.capacity == (CUSTOM ? CAP : n0 ? n0 : 1), "shrink-to-fit leaves no spare capacity (at least one)");
            VH_WITNESS_IF(n0 == 0, "shrink-to-fit of an empty vector");
        }
    }
    finish(1);
}

/* element access */
void h_get(void)
{
    setup();
    u64 idx = nd_usize();
    const void* p = src; void* q = src;
    const u8* e = (u8*)v.data + idx * ES;
    const void* g = ZyanVectorGet(&v, idx);
    void* gm = ZyanVectorGetMutable(&v, idx);
    ZyanStatus st = ZyanVectorGetPointer(&v, idx, &p), st2 = ZyanVectorGetPointerMutable(&v, idx, &q);
    if (idx >= n0)
    {
        VP(V02, g == 0 && gm == 0, "access beyond the end gives no pointer");
        VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE && st2 == ZYAN_STATUS_OUT_OF_RANGE, "access beyond the end is out of range");
        VH_WITNESS("get rejected");
    } else
    {
        VP(V01, g == e && gm == e, "get returns the element");
        VP(V01, st == ZYAN_STATUS_SUCCESS && st2 == ZYAN_STATUS_SUCCESS && p == e && q == e, "get returns the element");
        VH_WITNESS("get");
    }
    check_unchanged(1);
    finish(1);
}

/* NULL and invalid arguments are refused without a crash */
void h_null(void)
{
    setup();
    u64 x = nd_usize();
    u64 s = 0; ZyanISize fi = 0; const void* p; void* q;
    int which = (int)nd_below(24);
    ZyanStatus st = ZYAN_STATUS_SUCCESS;
    switch (which)
    {
    case 0: st = ZyanVectorDestroy(0); break;
    case 1: st = ZyanVectorGetPointer(0, x, &p); break;
    case 2: st = ZyanVectorGetPointer(&v, x, 0); break;
    case 3: st = ZyanVectorGetPointerMutable(0, x, &q); break;
    case 4: st = ZyanVectorSet(0, x, src); break;
    case 5: st = ZyanVectorSet(&v, x, 0); break;
    case 6: st = ZyanVectorPushBack(0, src); break;
    case 7: st = ZyanVectorPushBack(&v, 0); break;
    case 8: st = ZyanVectorInsert(0, x, src); break;
    case 9: st = ZyanVectorInsert(&v, x, 0); break;
    case 10: st = ZyanVectorInsertRange(&v, x, 0, x); break;
    case 11: st = ZyanVectorEmplace(0, &q, 0); break;
    case 12: st = ZyanVectorEmplaceEx(0, x, &q, 0); break;
    case 13: st = ZyanVectorSwapElements(0, x, x); break;
    case 14: st = ZyanVectorDelete(0, x); break;
    case 15: st = ZyanVectorPopBack(0); break;
    case 16: st = ZyanVectorClear(0); break;
    case 17: st = ZyanVectorFind(0, src, &fi, 0); break;
    case 18: st = ZyanVectorBinarySearch(0, src, &s, 0); break;
    case 19: st = ZyanVectorResize(0, x); break;
    case 20: st = ZyanVectorReserve(0, x); break;
    case 21: st = ZyanVectorShrinkToFit(0); break;
    case 22: st = ZyanVectorGetSize(0, &s); break;
    default: st = ZyanVectorGetCapacity(0, &s); break;
    }
    VP(V02, st == ZYAN_STATUS_INVALID_ARGUMENT, "a NULL argument is refused");
    check_unchanged(1);
    VH_WITNESS("null");
    finish(1);
}
