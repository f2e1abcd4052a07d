/* Lists: every valid list of up to NMAX items (for caller buffers: every order of the nodes in the
 * buffer and of the free ones), arbitrary data, one operation with arbitrary arguments, comparison
 * with a sequence. FIX: caller buffer with room for NMAX nodes; DTOR: with destructor; FAIL:
 * arbitrary allocator failures; ES: item size. */
#include "vh_alloc.h"
#include <Zycore/List.h>
#ifndef NMAX
#define NMAX 3
#endif
#ifndef ES
#define ES 8
#endif
#ifndef FIX
#define FIX 0
#endif
#ifndef DTOR
#define DTOR 0
#endif
#ifndef PERMS
#define PERMS 6                         /* of the orders of three nodes */
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef SLACK
#define SLACK 0
#endif
#define NODE (sizeof(ZyanListNode) + ES)
#define MM (NMAX + 1)

static ZyanList l;
typedef struct { const ZyanListNode* node; u8 d[ES]; int any; } item;   /* node 0: a new one; any: unspecified data */
static item M[MM + 1]; static unsigned cnt;                    /* the model */
static item P[NMAX + 1]; static unsigned pn;                   /* the items before the operation */
static u8 seen[NMAX + 1]; static unsigned nd, strange;         /* destructor calls */
static u8* buf; static u64 cap; static u8 nv[ES]; static u8 guard; static u64 gi;
typedef struct __attribute__((packed)) { ZyanListNode n; u8 d[ES]; } blk;
static u8 ini[(NMAX + 1) * ES];

#define VL(c, m) do { VP(L01, c, m); VP(L02, c, m); VP(L03, c, m); VP(A01, c, m); } while (0)

static void dtor(void* p)
{
    int hit = 0;
    for (unsigned i = 0; i < NMAX; ++i)
    {
        if (i < pn && p == (const void*)(P[i].node + 1))
        {
            hit = 1; ++seen[i];
            for (unsigned j = 0; j < ES; ++j) { VP(L03, ((u8*)p)[j] == P[i].d[j], "the destructor gets the item with its data intact"); }
        }
    }
    if (!hit) { ++strange; }
    ++nd;
}
/* items lo..hi-1 of the old list have been destroyed, and nothing else */
static void destroyed(unsigned lo, unsigned hi)
{
    for (unsigned i = 0; i < NMAX; ++i)
    {
        if (i < pn) { VP(L03, seen[i] == (DTOR && i >= lo && i < hi), "each item that leaves is destroyed exactly once, others never"); }
    }
    VP(L03, strange == 0, "only items of the list are destroyed");
}
static ZyanListNode* slot(unsigned i) { return (ZyanListNode*)(buf + i * NODE); }

/* the list M[0..n-1] in nodes[0..n-1], free nodes nodes[n..m-1] */
static void build(ZyanListNode** nodes, unsigned n, unsigned m)
{
    l.allocator = FIX ? ZYAN_NULL : &vh_allocator;
    l.size = n; l.element_size = ES; l.destructor = DTOR ? (ZyanMemberProcedure)dtor : ZYAN_NULL;
    l.head = n ? nodes[0] : ZYAN_NULL; l.tail = n ? nodes[n - 1] : ZYAN_NULL;
    l.buffer = FIX ? buf : ZYAN_NULL; l.capacity = FIX ? cap : 0;
    l.first_unused = m > n ? nodes[n] : ZYAN_NULL;
    for (unsigned i = 0; i < NMAX; ++i)
    {
        if (i < n)
        {
            nodes[i]->prev = i ? nodes[i - 1] : ZYAN_NULL;
            nodes[i]->next = i + 1 < n ? nodes[i + 1] : ZYAN_NULL;
            M[i].node = P[i].node = nodes[i]; M[i].any = 0;
            for (unsigned j = 0; j < ES; ++j) { P[i].d[j] = M[i].d[j] = ((u8*)(nodes[i] + 1))[j] = ini[i * ES + j]; }
        } else if (i < m) { nodes[i]->next = i + 1 < m ? nodes[i + 1] : ZYAN_NULL; }
    }
    cnt = pn = n; nd = strange = 0;
    for (unsigned i = 0; i < NMAX; ++i) { seen[i] = 0; }
}
static void check(void)
{
    static u64 sz; sz = 77;
    static const ZyanListNode* f[MM]; static const ZyanListNode* p; p = 0;
    ZyanStatus st = ZyanListGetSize(&l, &sz);
    VL(st == ZYAN_STATUS_SUCCESS && sz == cnt, "the size is that of the sequence");
    st = ZyanListGetHeadNode(&l, &p);
    VL(st == ZYAN_STATUS_SUCCESS && (p != 0) == (cnt != 0), "the list has a head unless it is empty");
    for (unsigned i = 0; i < MM; ++i)
    {
        f[i] = 0;
        if (i < cnt)
        {
            VL(p != 0, "there are as many items from the head on as the size says");
            if (!p) { return; }
            f[i] = p;
            VL(!M[i].node || M[i].node == p, "items that stay keep their node");
            if (FIX)
            {
                u64 o = (u64)((u8*)p - buf);
                VP(L02, (u8*)p >= buf && o + NODE <= cap, "a node lies in the buffer");
                for (unsigned j = 0; j < i; ++j)
                {
                    u64 q = (u64)((u8*)f[j] - buf);
                    VP(L02, o >= q + NODE || q >= o + NODE, "nodes do not overlap");
                }
            }
            const u8* d = ZyanListGetNodeData(p);
            if (d && !M[i].any) { for (unsigned j = 0; j < ES; ++j) { VL(d[j] == M[i].d[j], "the items and their order are those of the sequence"); } }
            static const void* d2; static void* d3; d2 = d3 = 0;
            ZyanStatus s2 = ZyanListGetNodeDataEx(p, &d2), s3 = ZyanListGetNodeDataMutableEx(p, &d3);
            VP(L01, s2 == ZYAN_STATUS_SUCCESS && s3 == ZYAN_STATUS_SUCCESS && d && d2 == d && d3 == d && ZyanListGetNodeDataMutable(p) == d, "every accessor gives the same data");
            st = ZyanListGetNextNode(&p);
            VL(st == ZYAN_STATUS_SUCCESS, "the next node can be read");
        }
    }
    VL(p == 0, "there are as many items from the head on as the size says");
    st = ZyanListGetTailNode(&l, &p);
    VL(st == ZYAN_STATUS_SUCCESS, "the tail can be read");
    for (unsigned i = MM; i-- > 0; )
    {
        if (i < cnt)
        {
            VL(p == f[i], "backwards from the tail the same items appear");
            if (!p) { return; }
            ZyanListGetPrevNode(&p);
        }
    }
    VL(p == 0, "backwards from the tail the same items appear");
#if FIX
    VP(L02, buf[gi] == guard, "nothing is written behind the buffer");
    VP(L02, l.buffer == buf && l.capacity == cap, "the buffer is kept");
#else
    VP(A01, vh_alloc_live() == cnt, "the list owns one block for each item");
    VP(L03, vh_alloc_live() == cnt, "the list owns one block for each item");
#endif
}
/* the remaining room of a buffer is still usable, then everything is given back */
static void finish(void)
{
#if FIX
    if (VH_ON_L02)
    {
        pn = 0;
        for (unsigned i = 0; i <= NMAX; ++i)
        {
            ZyanStatus st = ZyanListPushBack(&l, nv);
            if (cnt < NMAX)
            {
                VP(L02, st == ZYAN_STATUS_SUCCESS, "as many items as fit into the buffer are accepted");
                M[cnt].node = 0; M[cnt].any = 0;
                for (unsigned j = 0; j < ES; ++j) { M[cnt].d[j] = nv[j]; }
                ++cnt;
            } else { VP(L02, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "an item that does not fit is refused"); }
        }
        check();
        return;
    }
#endif
    if (VH_ON_L03 || VH_ON_A01)
    {
        /* the items that are left become the reference for the destructor */
        const ZyanListNode* p = l.head;
        pn = 0;
        for (unsigned i = 0; i < NMAX; ++i)
        {
            if (i < cnt && p)
            {
                P[i].node = p; ++pn; seen[i] = 0;
                for (unsigned j = 0; j < ES; ++j) { P[i].d[j] = ((const u8*)(p + 1))[j]; }
                p = p->next;
            }
        }
        nd = strange = 0;
        unsigned fr = vh_nfree;
        ZyanStatus st = ZyanListDestroy(&l);
        VL(st == ZYAN_STATUS_SUCCESS, "destroying the list succeeds");
        if (cnt <= NMAX) { destroyed(0, pn); }
        VP(A01, FIX ? vh_nfree == fr : vh_alloc_live() == 0, "destroying the list releases everything");
        VP(L03, FIX || vh_alloc_live() == 0, "destroying the list releases everything");
    }
}
static void insert(unsigned at, const u8* d, const void* node, int any)
{
    for (unsigned i = MM; i-- > 1; ) { if (i > at && i <= cnt) { M[i] = M[i - 1]; } }
    M[at].node = node; M[at].any = any;
    if (d) { for (unsigned j = 0; j < ES; ++j) { M[at].d[j] = d[j]; } }
    ++cnt;
}
static void erase(unsigned lo, unsigned hi)
{
    for (unsigned i = 0; i < MM; ++i) { if (i >= lo && i + (hi - lo) < cnt) { M[i] = M[i + (hi - lo)]; } }
    cnt -= hi - lo;
}
/* true if an insertion has to be refused */
static int refused(ZyanStatus st)
{
    if (FIX)
    {
        if (cnt < NMAX) { return 0; }
        VL(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a full buffer is reported as such");
        return 1;
    }
    if (!vh_nfailed) { return 0; }
    VL(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "an allocator failure is passed on");
    return 1;
}

static int cfail; static u8 cv[ES]; static void* cgot; static unsigned ccalls;
static ZyanStatus ctor(void* p)
{
    cgot = p; ++ccalls;
    for (unsigned j = 0; j < ES; ++j) { ((u8*)p)[j] = cv[j]; }
    return cfail ? ZYAN_STATUS_FAILED : ZYAN_STATUS_SUCCESS;
}
static void inputs(void)
{
    
    nd_bytes(nv, ES); nd_bytes(cv, ES);
    nd_bytes(ini, NMAX * ES);
    vh_alloc_init(0);
    ccalls = 0; cgot = 0;
}
#if FIX
static const u8 perms[6][3] = { {0,1,2}, {2,1,0}, {1,2,0}, {0,2,1}, {1,0,2}, {2,0,1} };
#endif
static unsigned v;                      /* the variant of the operation, concrete like the structure */
/* one case for each structure of the list and each of the NV variants of the operation */
#if FIX
#define CASES(BODY, NV) \
    inputs(); \
    u64 sel = nd_below(33), var = nd_below(NV), slack = SLACK; \
    unsigned id = 0; \
    start(slack); \
    for (unsigned m = 0; m <= NMAX; ++m) for (unsigned q = 0; q < (m < 2 ? 1 : m == 2 ? 2 : PERMS); ++q) \
        for (unsigned n = 0; n <= m; ++n, ++id) for (unsigned k = 0; k < (NV); ++k) if (sel == id && var == k) \
        { \
            static ZyanListNode* nodes[NMAX + 1]; \
            for (unsigned i = 0; i < m; ++i) { nodes[i] = slot(m == 2 ? (q ? 1 - i : i) : m == 3 ? perms[q][i] : i); } \
            build(nodes, n, m); \
            v = k; \
            BODY(); \
            return; \
        }
static void start(u64 slack)
{
    cap = NMAX * NODE + slack;
    guard = nd_u8();
#ifdef VH_SOLVER
    static blk bufs[NMAX + 1];
    buf = (u8*)bufs;
    gi = cap; buf[gi] = guard;
#else
    buf = vh_block(NMAX * NODE + slack + 1);
    gi = cap; buf[gi] = guard;
#endif
}
#else
#define CASES(BODY, NV) \
    inputs(); \
    u64 sel = nd_below(NMAX + 1), var = nd_below(NV); \
    for (unsigned n = 0; n <= NMAX; ++n) for (unsigned k = 0; k < (NV); ++k) if (sel == n && var == k) \
        { \
            static ZyanListNode* nodes[NMAX + 1]; \
            for (unsigned i = 0; i < n; ++i) { nodes[i] = vh_alloc_adopt(NODE, 1, NODE); } \
            build(nodes, n, n); \
            v = k; \
            BODY(); \
            return; \
        }
#endif
/* variant k of the allocator: fail at call k-1, variant 0 never fails */
#if FAIL
#define NF(calls) ((calls) + 1)
#define SETFAIL(k) (vh_alloc_fail = (k) ? 1ull << ((k) - 1) : 0)
#else
#define NF(calls) 1
#define SETFAIL(k) ((void)0)
#endif

#define NV_push (2 * NF(1))
static void push(void)
{
    const int w = v & 1;
    SETFAIL(v >> 1);
    ZyanStatus st = w ? ZyanListPushFront(&l, nv) : ZyanListPushBack(&l, nv);
    if (!refused(st)) { VL(st == ZYAN_STATUS_SUCCESS, "an item with room for it is accepted"); insert(w ? 0 : cnt, nv, 0, 0); }
    destroyed(0, 0);
    check();
#if FIX || FAIL
    VH_WITNESS_IF(!ZYAN_SUCCESS(st), "refused");
#endif
    VH_WITNESS_IF(ZYAN_SUCCESS(st) && w && cnt == NMAX, "front");
    VH_WITNESS_IF(ZYAN_SUCCESS(st) && !w && cnt == NMAX, "back");
    finish();
}
void h_push(void) { CASES(push, NV_push) }
#define NV_emplace (6 * NF(1))
static void emplace(void)
{
    int front = v & 1, with = (v >> 1) % 3 != 0;
    static void* it; it = &v;
    cfail = (v >> 1) % 3 == 2;
    SETFAIL(v / 6);
    ZyanStatus st = front ? ZyanListEmplaceFront(&l, &it, with ? (ZyanMemberFunction)ctor : ZYAN_NULL)
        : ZyanListEmplaceBack(&l, &it, with ? (ZyanMemberFunction)ctor : ZYAN_NULL);
    if (refused(st)) { VL(ccalls == 0, "no constructor runs for an item without room"); }
    else if (with && cfail)
    {
        VP(L03, st == ZYAN_STATUS_FAILED, "a failing constructor is reported");
        VL(!ZYAN_SUCCESS(st), "a failing constructor is reported");
        VH_WITNESS_IF(cnt == 2, "failing constructor");
    } else
    {
        VL(st == ZYAN_STATUS_SUCCESS, "an item with room for it is accepted");
        VL(ccalls == (unsigned)with, "the constructor runs once");
        insert(front ? 0 : cnt, cv, (const ZyanListNode*)it - 1, !with);
        if (with) { VL(cgot == it, "the constructor gets the new item"); }
        VH_WITNESS_IF(front && with && cnt == NMAX, "front");
        VH_WITNESS_IF(!front && !with && cnt == NMAX, "back");
    }
    destroyed(0, 0);
    check();
    finish();
}
void h_emplace(void) { CASES(emplace, NV_emplace) }
#define NV_pop 2
static void pop(void)
{
    const int w = v;
    ZyanStatus st = w ? ZyanListPopFront(&l) : ZyanListPopBack(&l);
    if (!cnt) { VL(!ZYAN_SUCCESS(st), "an empty list has nothing to pop"); destroyed(0, 0); }
    else
    {
        VL(st == ZYAN_STATUS_SUCCESS, "popping succeeds");
        destroyed(w ? 0 : cnt - 1, w ? 1 : cnt);
        VH_WITNESS_IF(cnt == NMAX && w, "front");
        VH_WITNESS_IF(cnt == 1 && !w, "last");
        erase(w ? 0 : cnt - 1, w ? 1 : cnt);
    }
    check();
    finish();
}
void h_pop(void) { CASES(pop, NV_pop) }
#define NV_rem (2 * NMAX * NMAX)
static void rem(void)
{
    const unsigned single = v & 1, i = (v >> 1) / NMAX, j = (v >> 1) % NMAX;
    if (j >= cnt || i > j || (single && i != j)) { return; }
    ZyanStatus st = single ? ZyanListRemove(&l, P[i].node) : ZyanListRemoveRange(&l, P[i].node, P[j].node);
    VL(st == ZYAN_STATUS_SUCCESS, "removing succeeds");
    destroyed(i, j + 1);
    erase(i, j + 1);
    check();
    VH_WITNESS_IF(single && i == 1 && cnt == NMAX - 1, "removed one");
    VH_WITNESS_IF(!single && i == 0 && cnt == 0 && pn == NMAX, "removed all");
    finish();
}
void h_remove(void) { CASES(rem, NV_rem) }
#ifndef RPART
#define RPART 0
#endif
#define NV_resize (3 * (NMAX + 3) * NF(NMAX + 1) + 1)
static void resize(void)
{
    unsigned x = v, mode = 0;               /* 0 clear, 1 Resize, 2/3 ResizeEx without/with initializer */
    u64 t = 0;
    if (x)
    {
        --x;
        mode = 1 + x % 3; x /= 3;
        t = x % (NMAX + 3); x /= NMAX + 3;
        SETFAIL(x);
        if (t == NMAX + 2) { if (!FIX) { return; } t = ~0ull; }
        if (FIX && mode == 2 && t <= cnt) { return; }     /* the same as mode 3 */
        if (RPART && ((RPART == 1) != (mode == 1))) { return; }
    }
    {
        const void* in = mode == 3 ? (const void*)nv : (const void*)0;
        ZyanStatus st = mode == 0 ? ZyanListClear(&l) : mode == 1 ? ZyanListResize(&l, t) : ZyanListResizeEx(&l, t, in);
        unsigned had = cnt;
        if (t <= cnt)
        {
            VL(st == ZYAN_STATUS_SUCCESS, "shrinking succeeds");
            destroyed(t, cnt);
            erase(t, cnt);
            VH_WITNESS_IF(mode == 0 && had == NMAX, "cleared");
            VH_WITNESS_IF(mode != 0 && t == 1 && had == NMAX, "shrunk");
        } else
        {
            u64 got = 0;
            destroyed(0, 0);
            ZyanListGetSize(&l, &got);
            int full = FIX ? t > NMAX : vh_nfailed != 0;
            if (full)
            {
                VL(st == (FIX ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY), "growing without room is reported");
                /* the items that fit may have been added */
                VL(got >= cnt && got < t && (!FIX || got <= NMAX), "growing without room adds at most what fits");
#if FIX || FAIL
                VH_WITNESS("growing refused");
#endif
            } else
            {
                VL(st == ZYAN_STATUS_SUCCESS && got == t, "growing with room succeeds");
                VH_WITNESS_IF(mode != 2 && had == 1 && t == NMAX, "grown");
            }
            for (unsigned i = had; i < NMAX + 2; ++i) { if (i < got) { insert(i, nv, 0, mode != 3); } }
        }
        check();
        finish();
        return;
    }
}
void h_resize(void) { CASES(resize, NV_resize) }
#define NV_set NMAX
static void set(void)
{
    const unsigned i = v;
    if (i >= cnt) { return; }
    ZyanStatus st = ZyanListSetNodeData(&l, P[i].node, nv);
    VL(st == ZYAN_STATUS_SUCCESS, "setting succeeds");
    destroyed(i, i + 1);
    for (unsigned j = 0; j < ES; ++j) { M[i].d[j] = nv[j]; }
    check();
    VH_WITNESS_IF(i == 1 && cnt == NMAX, "set");
    finish();
}
void h_set(void) { CASES(set, NV_set) }

void h_init(void)
{
    u64 es = nd_usize(), c = nd_usize(); int dt = nd_bool(), a = nd_bool(), b = nd_bool();
    u8 z[8];
    vh_alloc_init(0);
    ZyanStatus st = ZyanListInitEx(&l, es, dt ? (ZyanMemberProcedure)dtor : 0, a ? &vh_allocator : 0);
    VL(st == (es && a ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT), "a list needs an item size and an allocator");
    if (es && a)
    {
        VL(l.size == 0 && l.head == 0 && l.tail == 0 && l.first_unused == 0 && l.allocator == &vh_allocator && l.element_size == es && l.destructor == (dt ? (ZyanMemberProcedure)dtor : 0), "a new list is empty");
        VL(vh_ncalls == 0, "an empty list allocates nothing");
        VH_WITNESS("init");
    }
    st = ZyanListInitCustomBuffer(&l, es, dt ? (ZyanMemberProcedure)dtor : 0, b ? (void*)z : (void*)0, c);
    VL(st == (es && b && c ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT), "a list on a buffer needs an item size and a buffer");
    if (es && b && c)
    {
        VL(l.size == 0 && l.head == 0 && l.tail == 0 && l.first_unused == 0 && l.allocator == 0 && l.element_size == es && l.buffer == z && l.capacity == c && l.destructor == (dt ? (ZyanMemberProcedure)dtor : 0), "a new list is empty");
        VH_WITNESS("init buffer");
        if (c < sizeof(ZyanListNode) + 1 || es > (1ull << 40))
        {
            if (c < sizeof(ZyanListNode) + es) { VP(L02, ZyanListPushBack(&l, z) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE || es > ~0ull - sizeof(ZyanListNode), "a buffer smaller than a node takes no item"); }
        }
    }
    st = ZyanListInit(&l, 3, 0);
    VL(st == ZYAN_STATUS_SUCCESS && l.allocator == ZyanAllocatorDefault() && l.size == 0 && l.element_size == 3, "a default list is empty");
    st = ZyanListDestroy(&l);
    VL(st == ZYAN_STATUS_SUCCESS, "an empty list can be destroyed");
}
void h_null(void)
{
    int q = (int)nd_below(28); u64 x = nd_usize(); const ZyanListNode* np = 0; void* it; const void* cd; u64 sz;
    ZyanListNode one;
    vh_alloc_init(0);
    l.allocator = &vh_allocator; l.element_size = ES; l.size = 0; l.head = l.tail = 0; l.destructor = 0;
    ZyanStatus st;
    switch (q)
    {
    case 0: st = ZyanListInitEx(0, ES, 0, &vh_allocator); break;
    case 1: st = ZyanListInitCustomBuffer(0, ES, 0, nv, 8); break;
    case 2: st = ZyanListDestroy(0); break;
    case 3: st = ZyanListGetHeadNode(0, &np); break;
    case 4: st = ZyanListGetTailNode(0, &np); break;
    case 5: st = ZyanListGetPrevNode(0); break;
    case 6: st = ZyanListGetPrevNode(&np); break;
    case 7: st = ZyanListGetNextNode(0); break;
    case 8: st = ZyanListGetNextNode(&np); break;
    case 9: st = ZyanListGetNodeData(0) ? 0 : ZYAN_STATUS_INVALID_ARGUMENT; break;
    case 10: st = ZyanListGetNodeDataEx(0, &cd); break;
    case 11: st = ZyanListGetNodeDataMutable(0) ? 0 : ZYAN_STATUS_INVALID_ARGUMENT; break;
    case 12: st = ZyanListGetNodeDataMutableEx(0, &it); break;
    case 13: st = ZyanListSetNodeData(0, &one, nv); break;
    case 14: st = ZyanListSetNodeData(&l, 0, nv); break;
    case 15: st = ZyanListSetNodeData(&l, &one, 0); break;
    case 16: st = ZyanListPushBack(0, nv); break;
    case 17: st = ZyanListPushBack(&l, 0); break;
    case 18: st = ZyanListPushFront(0, nv); break;
    case 19: st = ZyanListPushFront(&l, 0); break;
    case 20: st = ZyanListEmplaceBack(0, &it, 0); break;
    case 21: st = ZyanListEmplaceFront(&l, 0, 0); break;
    case 22: st = ZyanListPopBack(0); break;
    case 23: st = ZyanListPopFront(0); break;
    case 24: st = ZyanListRemoveRange(&l, &one, 0); break;
    case 25: st = ZyanListRemove(0, &one); break;
    case 26: st = ZyanListResize(0, x); break;
    default: st = ZyanListGetSize(0, &sz); break;
    }
    VL(st == ZYAN_STATUS_INVALID_ARGUMENT && l.size == 0 && l.head == 0, "a missing argument is refused");
    VH_WITNESS("null");
}
