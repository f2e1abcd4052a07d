#include "vh_alloc.h"
#ifdef VH_LISTBLK
#include <Zycore/List.h>
typedef struct __attribute__((packed)) { ZyanListNode n; u8 d[VH_MAXBYTES - sizeof(ZyanListNode)]; } vh_listblk;
#define VH_BLOCKTYPE vh_listblk
#endif

vh_blk vh_blks[VH_MAXBLK];
unsigned vh_nblk, vh_ncalls, vh_nalloc, vh_nrealloc, vh_nfree, vh_nfailed;
u64 vh_alloc_fail, vh_last_n;
int vh_too_big;

/* 1: product fits and stays within the model's largest block */
static int fits(u64 es, u64 n)
{
    return n <= VH_MAXBYTES && es <= VH_MAXBYTES && es * n <= VH_MAXBYTES;
}

static int fetch(void** out, u64 es, u64 n)
{
#ifdef VH_SOLVER
    __CPROVER_assert(vh_nblk < VH_MAXBLK, "BOUND: allocator model: more blocks than the stated bound");
    __CPROVER_assume(vh_nblk < VH_MAXBLK);
#endif
#ifdef VH_SOLVER
#ifdef VH_BLOCKTYPE
    u8* base = malloc(sizeof(VH_BLOCKTYPE));      /* a typed block keeps the pointers in it readable for the solver */
#else
    u8* base = malloc(VH_MAXBYTES);
#endif
    __CPROVER_assume(base != 0);
    u8* p = base + (VH_MAXBYTES - es * n);
#else
    u8* base = vh_block(es * n);
    u8* p = base;
#endif
    vh_blk* b = &vh_blks[vh_nblk++];
    b->p = p; b->base = base; b->es = es; b->n = n; b->live = 1;
    *out = p;
    return 1;
}

static int lookup(const void* p)
{
    for (unsigned i = 0; i < VH_MAXBLK; ++i)
    {
        if (i < vh_nblk && vh_blks[i].live && vh_blks[i].p == p) { return (int)i; }
    }
    return -1;
}

static ZyanStatus a_allocate(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    VP(A01, a == &vh_allocator, "allocate is passed the container's own allocator");
    VP(A01, p != 0, "allocate is passed a result pointer");
    VP(A01, es != 0 && n != 0, "allocate is never asked for zero elements or zero-sized elements");
    vh_last_n = n;
    unsigned c = vh_ncalls++;
    ++vh_nalloc;
    if ((vh_alloc_fail >> (c & 63)) & 1) { ++vh_nfailed; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    if (!fits(es, n)) { vh_too_big = 1; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    fetch(p, es, n);
    return ZYAN_STATUS_SUCCESS;
}

static ZyanStatus a_reallocate(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    VP(A01, a == &vh_allocator, "reallocate is passed the container's own allocator");
    VP(A01, p != 0, "reallocate is passed a pointer to the block pointer");
    VP(A01, es != 0 && n != 0, "reallocate is never asked for zero elements or zero-sized elements");
    int i = lookup(*p);
    VP(A01, i >= 0, "reallocate is passed a live block of this allocator");
    if (i < 0) { return ZYAN_STATUS_FAILED; }
    VP(A01, vh_blks[i].es == es, "reallocate is passed the element size the block was allocated with");
    vh_last_n = n;
    unsigned c = vh_ncalls++;
    ++vh_nrealloc;
    if ((vh_alloc_fail >> (c & 63)) & 1) { ++vh_nfailed; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    if (!fits(es, n)) { vh_too_big = 1; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    void* q;
    u8* old = vh_blks[i].p;
    u64 keep = vh_blks[i].n < n ? vh_blks[i].n : n;
    fetch(&q, es, n);
    for (u64 k = 0; k < keep * es; ++k) { ((u8*)q)[k] = old[k]; }
    vh_blks[i].live = 0;
    free(vh_blks[i].base);
    *p = q;
    return ZYAN_STATUS_SUCCESS;
}

static ZyanStatus a_deallocate(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n)
{
    VP(A01, a == &vh_allocator, "deallocate is passed the container's own allocator");
    ++vh_nfree;
    int i = lookup(p);
    VP(A01, i >= 0, "deallocate is passed a live block of this allocator");
    if (i < 0) { return ZYAN_STATUS_FAILED; }
    VP(A01, vh_blks[i].es == es, "deallocate is passed the element size the block was allocated with");
    VP(A01, vh_blks[i].n == n, "deallocate is passed the element count the block was allocated with");
    vh_blks[i].live = 0;
    free(vh_blks[i].base);
    return ZYAN_STATUS_SUCCESS;
}

ZyanAllocator vh_allocator = { a_allocate, a_reallocate, a_deallocate };

void vh_alloc_init(u64 fail)
{
    vh_nblk = vh_ncalls = vh_nalloc = vh_nrealloc = vh_nfree = vh_nfailed = 0;
    vh_alloc_fail = fail;
    vh_too_big = 0;
}

void* vh_alloc_adopt(u64 es, u64 n, u64 bytes)
{
#if defined(VH_SOLVER) && defined(VH_BLOCKTYPE)
    void* p = malloc(sizeof(VH_BLOCKTYPE));
    __CPROVER_assume(p != 0);
#else
    void* p = vh_block(bytes);
#endif
    vh_blk* b = &vh_blks[vh_nblk++];
    b->p = p; b->base = p; b->es = es; b->n = n; b->live = 1;
    return p;
}

unsigned vh_alloc_live(void)
{
    unsigned k = 0;
    for (unsigned i = 0; i < VH_MAXBLK; ++i) { if (i < vh_nblk && vh_blks[i].live) { ++k; } }
    return k;
}
