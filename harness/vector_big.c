/* Vectors of up to MAX elements, any growth factor and threshold: every block move is an entry of a log
 * instead of a copy loop, and an arbitrary byte of the result is traced back through the log to where it
 * came from.  The replay uses real memory and compares every byte. */
#include "vh.h"
#include <Zycore/Vector.h>
#ifndef MAX
#define MAX (1u << 17)
#endif
#ifndef ES
#define ES 8
#endif
#ifndef CUSTOM
#define CUSTOM 0
#endif

/* --------------------------------------------------------------- blocks and moves */
enum { OLD = 1, SRC = 2 };
static u8* oldp; static u8* srcp; static u64 srcn;
static u8 pat(int which, u64 i)
{
    u64 x = (i + 1) * 0x9E3779B97F4A7C15u + (u64)which * 0xD1B54A32D192ED03u;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9u;
    return (u8)(x >> 56);
}
static u8* block(int which, u64 bytes)
{
    u8* p = malloc(bytes);
#ifdef VH_SOLVER
    __CPROVER_assume(p != 0);
#else
    for (u64 i = 0; i < bytes; ++i) { p[i] = pat(which, i); }
#endif
    return p;
}
#ifdef VH_SOLVER
#define LOGN 6
static struct { u64 dobj, doff, sobj, soff, n; } lg[LOGN]; static unsigned lgn;
#define OBJ(p) __CPROVER_POINTER_OBJECT(p)
#define OFF(p) ((u64)__CPROVER_POINTER_OFFSET(p))
static void note(const void* d, const void* s, u64 n)
{
    __CPROVER_assert(lgn < LOGN, "BOUND: moves"); __CPROVER_assume(lgn < LOGN);
    lg[lgn].dobj = OBJ(d); lg[lgn].doff = OFF(d); lg[lgn].sobj = OBJ(s); lg[lgn].soff = OFF(s); lg[lgn].n = n;
    ++lgn;
}
static int inside(const void* p, u64 n)
{
    return n <= __CPROVER_OBJECT_SIZE(p) && OFF(p) <= __CPROVER_OBJECT_SIZE(p) - n;
}
void* vh_big_memmove(void* d, const void* s, size_t n)
{
    VP(V02, n == 0 || (inside(d, n) && inside(s, n)), "a move stays inside the storage");
    VP(S02, n == 0 || (inside(d, n) && inside(s, n)), "a move stays inside the storage");
    VP(V01, n == 0 || (inside(d, n) && inside(s, n)), "a move stays inside the storage");
    note(d, s, n);
    return d;
}
void* vh_big_memcpy(void* d, const void* s, size_t n)
{
    VP(V02, n == 0 || d == (void*)s || OBJ(d) != OBJ(s) || OFF(d) + n <= OFF(s) || OFF(s) + n <= OFF(d), "memcpy of separate regions");
    return vh_big_memmove(d, s, n);
}
#endif

/* --------------------------------------------------------------- allocator */
static unsigned nre; static int odd; static u64 granted; static int refuse; static unsigned nrefused;
static void* cur;
static ZyanStatus re(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    ++nre;
    if (es != ES || *p != cur || n == 0) { odd = 1; return ZYAN_STATUS_FAILED; }
    if (refuse || n > 512u * MAX) { ++nrefused; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
#ifdef VH_SOLVER
    u8* q = malloc(es * n);
    __CPROVER_assume(q != 0);
    note(q, cur, (n < granted ? n : granted) * es);
#else
    u8* q = malloc(es * n);
    memset(q, 0x5A, es * n);
    memcpy(q, cur, (n < granted ? n : granted) * es);
    free(cur);
#endif
    cur = q; granted = n; *p = q;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus al(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { odd = 1; return ZYAN_STATUS_FAILED; }
static ZyanStatus de(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n) { odd = 1; return ZYAN_STATUS_FAILED; }
static ZyanAllocator A = { al, re, de };

/* --------------------------------------------------------------- the vector */
static ZyanVector v; static u64 n0, c0, q; static u8 gf, th; static u8* d0;
static void setup(void)
{
    n0 = nd_range(0, MAX);
    c0 = nd_range(1, MAX);
#ifdef GF
    gf = CUSTOM ? 1 : GF; th = CUSTOM ? 0 : TH;
#else
    gf = CUSTOM ? 1 : (u8)nd_range(1, 255);
    th = CUSTOM ? 0 : nd_u8();
#endif
    srcn = nd_range(0, MAX);
    q = nd_u64();
    refuse = nd_bool();
    VH_ASSUME(n0 <= c0);
    oldp = block(OLD, c0 * ES);
    srcp = block(SRC, srcn ? srcn * ES : 1);
    cur = oldp; granted = c0; nre = nrefused = 0; odd = 0;
#ifdef VH_SOLVER
    lgn = 0;
#endif
    v.allocator = CUSTOM ? ZYAN_NULL : &A;
    v.growth_factor = gf; v.shrink_threshold = th;
    v.size = n0; v.capacity = c0; v.element_size = ES; v.destructor = ZYAN_NULL; v.data = oldp;
    d0 = oldp;
}
/* byte x of the vector is byte off of the block which (which 0: nothing is known about it) */
static int comes_from(u64 x, int which, u64 off)
{
    if (!which) { return 1; }
#ifdef VH_SOLVER
    u64 obj = OBJ(v.data), o = OFF(v.data) + x;
    for (unsigned i = LOGN; i-- > 0;)
    {
        if (i < lgn && obj == lg[i].dobj && o >= lg[i].doff && o - lg[i].doff < lg[i].n) { o = o - lg[i].doff + lg[i].soff; obj = lg[i].sobj; }
    }
    return obj == OBJ(which == OLD ? oldp : srcp) && o == off;
#else
    return ((u8*)v.data)[x] == pat(which, off);
#endif
}
static void (*want)(u64 x, int* which, u64* off);
static u64 p_idx, p_cnt, p_a, p_b;
static void check(u64 size)
{
    u64 s = 0;
    VP(V01, v.size == size && ZyanVectorGetSize(&v, &s) == ZYAN_STATUS_SUCCESS && s == size, "size after the operation");
    VP(V02, v.size <= v.capacity, "size never exceeds capacity");
    VP(V05, v.size == size && v.size <= v.capacity, "size after the operation");
    if (CUSTOM) { VP(V03, v.data == d0 && v.capacity == c0 && nre == 0, "a vector on a caller-supplied buffer keeps that buffer and its capacity"); }
    else
    {
        VP(V03, !odd && v.capacity == granted, "the reported capacity is what the allocator granted");
        VP(V05, v.data == cur && v.capacity == granted, "storage and capacity match the live block");
        VP(V02, v.data == cur, "the vector's storage is its live block");
    }
    VP(V03, v.growth_factor == gf && v.shrink_threshold == th, "growth factor and shrink threshold are unchanged");
    if (v.size != size || v.data != cur || v.capacity > granted || size > v.capacity) { return; }
#ifdef VH_SOLVER
    if (q < size * ES)
    {
        int which; u64 off;
        want(q, &which, &off);
        int ok = comes_from(q, which, off);
        VP(V01, ok, "every byte is the one the edit of a sequence leaves");
        VP(V05, ok, "every byte is the one the edit of a sequence leaves");
        u64 i = q / ES;
        const u8* e = ZyanVectorGet(&v, i); const void* f = 0;
        VP(V01, e == (u8*)v.data + i * ES, "Get returns the element at the index");
        VP(V01, ZyanVectorGetPointer(&v, i, &f) == ZYAN_STATUS_SUCCESS && f == e, "Get returns the element at the index");
    }
#else
    for (u64 x = 0; x < size * ES; ++x)
    {
        int which; u64 off;
        want(x, &which, &off);
        int ok = comes_from(x, which, off);
        VP(V01, ok, "every byte is the one the edit of a sequence leaves");
        VP(V05, ok, "every byte is the one the edit of a sequence leaves");
        if (x % ES == 0) { VP(V01, ZyanVectorGet(&v, x / ES) == (u8*)v.data + x, "Get returns the element at the index"); }
    }
#endif
}
static void w_same(u64 x, int* which, u64* off) { *which = x < n0 * ES ? OLD : 0; *off = x; }
static void w_insert(u64 x, int* which, u64* off)
{
    u64 a = p_idx * ES, n = p_cnt * ES;
    *which = x < a ? OLD : x < a + n ? SRC : OLD;
    *off = x < a ? x : x < a + n ? x - a : x - n;
}
static void w_emplace(u64 x, int* which, u64* off)
{
    u64 a = p_idx * ES;
    *which = x < a ? OLD : x < a + ES ? 0 : OLD;
    *off = x < a ? x : x - ES;
}
static void w_delete(u64 x, int* which, u64* off) { *which = OLD; *off = x < p_idx * ES ? x : x + p_cnt * ES; }
static void w_swap(u64 x, int* which, u64* off)
{
    *which = OLD;
    *off = x - p_a * ES < ES ? x - p_a * ES + p_b * ES : x - p_b * ES < ES ? x - p_b * ES + p_a * ES : x;
}
static void w_set(u64 x, int* which, u64* off)
{
    *which = x - p_a * ES < ES ? SRC : OLD;
    *off = x - p_a * ES < ES ? x - p_a * ES : x;
}
static void unchanged(void)
{
    want = w_same;
    check(n0);
    VP(V02, v.data == d0 && v.capacity == c0, "a refused operation leaves the storage alone");
}
static void no_room(ZyanStatus st)
{
    VP(V05, st == (CUSTOM ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY), "a failed growth is reported");
    VP(V03, !CUSTOM || st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a full fixed buffer is reported as such");
    VP(V01, !ZYAN_SUCCESS(st), "a request without room for it is refused");
    unchanged();
}
static void grown(u64 need)
{
    VP(V03, v.capacity == (need > c0 ? need * gf : c0), "growth: capacity is kept, or becomes the needed size times the growth factor");
    VP(V03, need > c0 || nre == 0, "no reallocation while the size fits the capacity");
}
static void shrunk(u64 size)
{
    if (CUSTOM) { return; }
    int s = th && size * th < c0;
    VP(V03, v.capacity == (s ? (size ? size * gf : 1) : c0), "shrink: capacity is kept, or becomes the size times the growth factor (at least one)");
    VP(V03, s || nre == 0, "no reallocation while above the shrink threshold");
}

void h_big_insert(void)
{
    setup();
    u64 idx = nd_u64(), cnt = nd_range(0, MAX); int mode = (int)nd_below(3);
    VH_ASSUME(cnt <= srcn && srcn > 0);
    ZyanStatus st;
    if (mode == 0) { st = ZyanVectorInsertRange(&v, idx, srcp, cnt); }
    else if (mode == 1) { cnt = 1; st = ZyanVectorInsert(&v, idx, srcp); }
    else { cnt = 1; idx = n0; st = ZyanVectorPushBack(&v, srcp); }
    p_idx = idx; p_cnt = cnt;
    if (idx > n0 || cnt == 0)
    {
        VP(V02, idx <= n0 || cnt == 0 || st == ZYAN_STATUS_OUT_OF_RANGE, "insertion beyond the end is out of range");
        unchanged();
    } else if (n0 + cnt > c0 && (CUSTOM || nrefused)) { no_room(st); }
    else
    {
        VP(V01, st == ZYAN_STATUS_SUCCESS, "a legal insertion succeeds");
        want = w_insert; check(n0 + cnt);
        grown(n0 + cnt);
        VH_WITNESS_IF(idx == 70000 && cnt == 300 && n0 > 100000, "long insertion");
    }
}
void h_big_emplace(void)
{
    setup();
    u64 idx = nd_u64(); int mode = (int)nd_bool();
    void* e = 0;
    ZyanStatus st;
    if (mode) { st = ZyanVectorEmplaceEx(&v, idx, &e, ZYAN_NULL); }
    else { idx = n0; st = ZyanVectorEmplace(&v, &e, ZYAN_NULL); }
    p_idx = idx;
    if (idx > n0)
    {
        VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE, "emplacing beyond the end is out of range");
        unchanged();
    } else if (n0 + 1 > c0 && (CUSTOM || nrefused)) { no_room(st); }
    else
    {
        VP(V01, st == ZYAN_STATUS_SUCCESS, "a legal insertion succeeds");
        want = w_emplace; check(n0 + 1);
        VP(V01, e == (u8*)v.data + idx * ES, "emplace returns the new element");
        grown(n0 + 1);
        VH_WITNESS_IF(idx == 70000 && n0 > 100000, "long emplace");
    }
}
void h_big_delete(void)
{
    setup();
    u64 idx = nd_u64(), cnt = nd_u64(); int mode = (int)nd_below(4);
    ZyanStatus st;
    if (mode == 0) { st = ZyanVectorDeleteRange(&v, idx, cnt); }
    else if (mode == 1) { cnt = 1; st = ZyanVectorDelete(&v, idx); }
    else if (mode == 2) { cnt = 1; idx = n0 - 1; st = ZyanVectorPopBack(&v); }
    else { cnt = n0; idx = 0; st = ZyanVectorClear(&v); }
    p_idx = idx; p_cnt = cnt;
    int legal = idx <= n0 && cnt <= n0 - idx;
    if (mode == 3 && n0 == 0) { VP(V01, st == ZYAN_STATUS_SUCCESS, "clearing an empty vector succeeds"); unchanged(); }
    else if (!legal || cnt == 0)
    {
        VP(V02, legal || !ZYAN_SUCCESS(st), "deleting beyond the end is refused");
        unchanged();
    } else if (ZYAN_SUCCESS(st))
    {
        want = w_delete; check(n0 - cnt);
        shrunk(n0 - cnt);
        VH_WITNESS_IF(idx == 70000 && cnt == 300 && n0 > 100000, "long deletion");
    } else
    {
        VP(V01, nrefused, "a legal removal succeeds");
        VP(V05, nrefused && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "a removal only fails when the allocator did");
        if (v.size == n0) { want = w_same; check(n0); } else { want = w_delete; check(n0 - cnt); }
    }
}
void h_big_edit(void)
{
    setup();
    u64 a = nd_u64(), b = nd_u64(); int mode = (int)nd_bool();
    VH_ASSUME(srcn > 0);
    p_a = a; p_b = b;
    ZyanStatus st = mode ? ZyanVectorSwapElements(&v, a, b) : ZyanVectorSet(&v, a, srcp);
    if (a >= n0 || (mode && b >= n0))
    {
        VP(V02, st == ZYAN_STATUS_OUT_OF_RANGE, "an index beyond the end is out of range");
        unchanged();
    } else if (mode && n0 == c0)
    {
        if (ZYAN_SUCCESS(st)) { want = w_swap; check(n0); }
        else { VP(V01, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "swap without room for its copy"); unchanged(); }
    } else
    {
        VP(V01, st == ZYAN_STATUS_SUCCESS, "a legal edit succeeds");
        want = mode ? w_swap : w_set; check(n0);
        VP(V03, nre == 0, "an edit in place does not reallocate");
        VH_WITNESS_IF(mode && a == 70000 && b == 3, "far swap");
        VH_WITNESS_IF(!mode && a == 70000, "far set");
    }
}
void h_big_capacity(void)
{
    setup();
    u64 n = nd_range(0, MAX); int mode = (int)nd_below(3);
    u64 nn = nd_u64();
    ZyanStatus st;
    want = w_same;
    if (mode == 0)
    {
        st = ZyanVectorResize(&v, n);
        p_idx = n; p_cnt = 0;
        if (n > c0 && (CUSTOM || nrefused)) { no_room(st); return; }
        if (!ZYAN_SUCCESS(st))
        {
            VP(V05, nrefused, "a resize only fails when the allocator did");
            VP(V01, nrefused, "a legal resize succeeds");
            check(v.size == n ? n : n0);
            return;
        }
        check(n);
        if (n == n0) { VP(V03, nre == 0 && v.capacity == c0, "a resize to the same size changes nothing"); }
        else if (n > c0) { grown(n); }
        else if (!CUSTOM)
        {
            int s = th && n * th < c0;
            VP(V03, v.capacity == (s ? (n ? n * gf : 1) : c0), "resize: capacity is kept, or becomes the size times the growth factor");
        }
        VH_WITNESS_IF(n == 70000 && n0 == 300, "long resize");
    } else if (mode == 1)
    {
        st = ZyanVectorReserve(&v, nn);
        if (nn <= c0) { VP(V03, st == ZYAN_STATUS_SUCCESS && v.capacity == c0 && nre == 0, "reserving what is there changes nothing"); check(n0); }
        else if (CUSTOM || nrefused) { no_room(st); }
        else { VP(V03, st == ZYAN_STATUS_SUCCESS && v.capacity == nn, "reserve gives the capacity asked for"); check(n0); }
        VH_WITNESS_IF(v.capacity == 70000 && n0 == 300, "long reserve");
    } else
    {
        st = ZyanVectorShrinkToFit(&v);
        check(n0);
        if (!CUSTOM && !nrefused) { VP(V03, st == ZYAN_STATUS_SUCCESS && v.capacity == (n0 ? n0 : 1), "shrink-to-fit gives capacity equal to the size (at least one)"); }
        VH_WITNESS_IF(n0 == 70000, "long shrink");
    }
}
/* searches: the comparison is told where the element lies; all elements below lo are smaller, those from hi on larger */
static u64 lo, hi; static int cmp_bad; static u64 r_idx, r_cnt;
static ZyanI32 cmp(const void* e, const void* key)
{
    u64 off = (u64)((const u8*)e - oldp), i = off / ES;
    if (off % ES || i < r_idx || i - r_idx >= r_cnt || key != srcp) { cmp_bad = 1; }
    return i < lo ? -1 : i < hi ? 0 : 1;
}
void h_big_bsearch(void)
{
    setup();
    lo = nd_u64(); hi = nd_u64(); r_idx = nd_u64(); r_cnt = nd_u64();
    VH_ASSUME(lo <= hi);
    VH_ASSUME(r_cnt <= 12);                                                    /* short range anywhere */
    cmp_bad = 0;
    u64 f = ~(u64)0;
    ZyanStatus st = ZyanVectorBinarySearchEx(&v, srcp, &f, cmp, r_idx, r_cnt);
    if (r_idx > n0 || r_cnt > n0 - r_idx) { VP(V06, st == ZYAN_STATUS_OUT_OF_RANGE, "a range beyond the end is out of range"); return; }
    u64 a = lo < r_idx ? r_idx : lo > r_idx + r_cnt ? r_idx + r_cnt : lo;      /* first element not smaller */
    int there = a < r_idx + r_cnt && a < hi;
    VP(V06, !cmp_bad, "only elements of the range are compared");
    VP(V06, st == (there ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "found exactly if an equal element is in the range");
    VP(V06, f == a, "the index of the first equal element, or where it belongs");
    VH_WITNESS_IF(there && f == 70001, "far element found");
}
