/* A checking allocator handed to the containers.
 *  - every block is exactly element_size*n bytes (an overrun is a violation);
 *  - reallocate always moves and invalidates the old block;
 *  - the calls listed in vh_alloc_fail (bit i = call i) fail without side effect;
 *  - arguments are checked: known live block, element size and count as recorded. */
#ifndef VH_ALLOC_H
#define VH_ALLOC_H
#include "vh.h"
#include <Zycore/Allocator.h>

#ifndef VH_SOLVER
#undef VH_MAXBLK
#define VH_MAXBLK 1024
#endif
#ifndef VH_MAXBLK
#define VH_MAXBLK 4
#endif
#ifndef VH_MAXBYTES                 /* largest block the solver model hands out */
#define VH_MAXBYTES 64
#endif

typedef struct vh_blk_ { void* p; void* base; u64 es, n; int live; } vh_blk;
extern vh_blk vh_blks[VH_MAXBLK];
extern unsigned vh_nblk;            /* blocks ever handed out */
extern unsigned vh_ncalls;          /* allocate/reallocate calls */
extern unsigned vh_nalloc, vh_nrealloc, vh_nfree, vh_nfailed;
extern u64 vh_last_n;                /* elements asked for by the last call */
extern u64 vh_alloc_fail;           /* failure schedule */
extern int vh_too_big;              /* a request beyond VH_MAXBYTES was refused */
extern ZyanAllocator vh_allocator;

void  vh_alloc_init(u64 fail);
void* vh_alloc_adopt(u64 es, u64 n, u64 bytes);  /* hand out a block as pre-state; bytes concrete */
unsigned vh_alloc_live(void);
#endif
