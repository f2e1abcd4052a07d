/* Shared harness support.  Every harness is compiled twice:
 *   - by goto-cc, where nd_*() are symbolic inputs and VH_* are solver obligations;
 *   - by gcc -fsanitize=address,undefined, where nd_*() read the values of a solver
 *     counterexample from the file named by VH_INPUT (replay on the real code).
 */
#ifndef VH_H
#define VH_H

#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;

#ifdef VH_SOLVER
u64 nondet_vh_u64(void);
extern unsigned vh_nd_count;
#define VH_PROP(cond, msg)   __CPROVER_assert(cond, "PROP: " msg)
#define VH_ASSUME(cond)      __CPROVER_assume(cond)
/* Reachability witness: this assertion must come back FAILURE, else the harness is vacuous. */
#define VH_WITNESS(name)     __CPROVER_assert(0, "WITNESS: " name)
#define VH_WITNESS_IF(c, name) __CPROVER_assert(!(c), "WITNESS: " name)
#else
void vh_fail(const char* msg, const char* file, int line);
void vh_assume_false(const char* cond, int line);
#define VH_PROP(cond, msg)   do { if (!(cond)) vh_fail(msg, __FILE__, __LINE__); } while (0)
#define VH_ASSUME(cond)      do { if (!(cond)) vh_assume_false(#cond, __LINE__); } while (0)
#define VH_WITNESS(name)     do { } while (0)
#define VH_WITNESS_IF(c, name) do { (void)(c); } while (0)
#endif

/* Assertion belonging to one property; the driver defines VH_ON_<id> to 1 for the property being
 * decided and to 0 for the others. */
#define VP(tag, cond, msg)   do { if (VH_ON_##tag) { VH_PROP(cond, "[" #tag "] " msg); } } while (0)

/* Symbolic inputs.  Call these unconditionally and in a fixed order (never under a symbolic branch):
 * the replay reads them back by position. */
u64  nd_u64(void);
u32  nd_u32(void);
u16  nd_u16(void);
u8   nd_u8(void);
int  nd_bool(void);
u64  nd_below(u64 bound);              /* 0 <= x < bound */
u64  nd_range(u64 lo, u64 hi);         /* lo <= x <= hi  */
void nd_bytes(void* p, size_t n);      /* n concrete */

/* An index/count argument: any 64-bit value. */
#define nd_usize nd_u64

/* Exactly-sized block: an access one byte before or after it is a reported violation. */
void* vh_block(size_t n);              /* n concrete, uninitialised content = symbolic */

#endif
