/* Atomic operations: results for all values, and all interleavings of two threads. */
#include "vh.h"
#include <Zycore/Atomic.h>
#ifndef VH_SOLVER
#include <pthread.h>
#endif
#define SEQ(T, A, SUF, MAC) do { struct { u64 pre; A v; u64 post; } x; x.pre = b; x.post = c; x.v.value = CONV##SUF((T)a); \
    T r = (T)ZyanAtomicCompareExchange##SUF(&x.v, (T)b, (T)c); T m = (T)(u64)x.v.value; \
    VP(T01, r == (T)a, "compare-exchange returns the old value (" #T #SUF ")"); \
    VP(T01, m == ((T)a == (T)b ? (T)c : (T)a), "compare-exchange stores exactly if the old value matched (" #T #SUF ")"); \
    VH_WITNESS_IF((T)a == (T)b && m != (T)a, "exchanged " #SUF); \
    x.v.value = CONV##SUF((T)a); r = (T)ZyanAtomicIncrement##SUF(&x.v); m = (T)(u64)x.v.value; \
    VP(T01, m == (T)(a + 1) && r == m, "increment adds one and returns the new value (" #T #SUF ")"); \
    x.v.value = CONV##SUF((T)a); r = (T)ZyanAtomicDecrement##SUF(&x.v); m = (T)(u64)x.v.value; \
    VP(T01, m == (T)(a - 1) && r == m, "decrement subtracts one and returns the new value (" #T #SUF ")"); \
    x.v.value = CONV##SUF((T)a); r = (T)ZYAN_ATOMIC_COMPARE_EXCHANGE##SUF(x.v, (T)b, (T)c); m = (T)(u64)x.v.value; \
    VP(T01, r == (T)a && m == ((T)a == (T)b ? (T)c : (T)a), "the compare-exchange macro (" #T #SUF ")"); \
    x.v.value = CONV##SUF((T)a); r = (T)ZYAN_ATOMIC_INCREMENT##SUF(x.v); m = (T)(u64)x.v.value; \
    VP(T01, m == (T)(a + 1) && r == m, "the increment macro (" #T #SUF ")"); \
    x.v.value = CONV##SUF((T)a); r = (T)ZYAN_ATOMIC_DECREMENT##SUF(x.v); m = (T)(u64)x.v.value; \
    VP(T01, m == (T)(a - 1) && r == m, "the decrement macro (" #T #SUF ")"); \
    VP(T01, x.pre == b && x.post == c, "neighbours are untouched (" #T #SUF ")"); } while (0)
#define CONV32(x) (x)
#define CONV64(x) (x)
#define CONV(x) (void*)(x)
void h_atomic(void)
{
    u64 a = nd_u64(), b = nd_u64(), c = nd_u64();
    SEQ(u32, ZyanAtomic32, 32, 32); SEQ(u64, ZyanAtomic64, 64, 64); SEQ(u64, ZyanAtomicPointer, , );
}

/* --------------------------------------------------------------- two threads; OPA, OPB: 0 increment, 1 decrement, 2 compare-exchange */
#ifndef W
#define W 32
#endif
#ifndef OPA
#define OPA 0
#endif
#ifndef OPB
#define OPB 0
#endif
#if W == 32
typedef u32 word; typedef ZyanAtomic32 cell;
#define CAS ZyanAtomicCompareExchange32
#define INC ZyanAtomicIncrement32
#define DEC ZyanAtomicDecrement32
#define GET(c) ((c).value)
#define PUT(c, x) ((c).value = (x))
#elif W == 64
typedef u64 word; typedef ZyanAtomic64 cell;
#define CAS ZyanAtomicCompareExchange64
#define INC ZyanAtomicIncrement64
#define DEC ZyanAtomicDecrement64
#define GET(c) ((c).value)
#define PUT(c, x) ((c).value = (x))
#else
typedef u64 word; typedef ZyanAtomicPointer cell;
#define CAS ZyanAtomicCompareExchange
#define INC ZyanAtomicIncrement
#define DEC ZyanAtomicDecrement
#define GET(c) ((u64)(c).value)
#define PUT(c, x) ((c).value = (void*)(x))
#endif
static cell V; static word init, cmpA, newA, cmpB, newB, rA, rB, fin;
#define OP(k, cmp, nw) (k == 0 ? INC(&V) : k == 1 ? DEC(&V) : CAS(&V, cmp, nw))
/* (no address-taken locals while two threads run: the solver cannot handle them) */
#define NEXT(k, v, cmp, nw) (k == 0 ? (word)((v) + 1) : k == 1 ? (word)((v) - 1) : (v) == (cmp) ? (nw) : (v))
#define RET(k, v, cmp, nw) (k == 2 ? (v) : NEXT(k, v, cmp, nw))
static int serial(void)
{
    word ab = NEXT(OPA, init, cmpA, newA), ba = NEXT(OPB, init, cmpB, newB);
    return (rA == RET(OPA, init, cmpA, newA) && rB == RET(OPB, ab, cmpB, newB) && fin == NEXT(OPB, ab, cmpB, newB))
        || (rB == RET(OPB, init, cmpB, newB) && rA == RET(OPA, ba, cmpA, newA) && fin == NEXT(OPA, ba, cmpA, newA));
}
#ifdef VH_SOLVER
static _Bool doneA;
/* two operations in each thread: no update is lost */
void h_atomic_sum(void)
{
    init = (word)nd_u64();
    PUT(V, init);
    __CPROVER_ASYNC_1: ({ OP(OPA, 0, 0); OP(OPA, 0, 0); doneA = 1; });
    rA = OP(OPB, 0, 0); rB = OP(OPB, 0, 0);
    __CPROVER_assume(doneA);
    fin = GET(V);
    VP(T01, fin == (word)(init + (OPA ? -2 : 2) + (OPB ? -2 : 2)), "no update is lost");
    VH_WITNESS_IF(rA != init, "interleaved");
}
void h_atomic_two(void)
{
    init = (word)nd_u64(); cmpA = (word)nd_u64(); newA = (word)nd_u64(); cmpB = (word)nd_u64(); newB = (word)nd_u64();
    PUT(V, init);
    __CPROVER_ASYNC_1: ({ rA = OP(OPA, cmpA, newA); doneA = 1; });
    rB = OP(OPB, cmpB, newB);
    __CPROVER_assume(doneA);
    fin = GET(V);
    word a = rA;
    VP(T01, serial(), "two concurrent operations take effect one after the other");
    VH_WITNESS_IF(OPA == 2 ? a == init && OPB == 2 && rB == newA && newA != init : a == (OPA == 0 ? (word)(init + 1) : (word)(init - 1)), "first thread first");
    VH_WITNESS_IF(OPB == 2 ? rB == init && a != init : rB == (OPB == 0 ? (word)(init + 1) : (word)(init - 1)), "second thread first");
}
#else
static volatile int phase; static int rounds = 400000; static volatile int backA, backB;
static void* threadA(void* p)
{
    for (int i = 1; i <= rounds; ++i)
    {
        while (__atomic_load_n(&phase, __ATOMIC_ACQUIRE) != i) { }
        rA = OP(OPA, cmpA, newA);
        __atomic_store_n(&backA, i, __ATOMIC_RELEASE);
    }
    return 0;
}
void h_atomic_two(void)
{
    pthread_t t; u64 spin = 0; int bad = 0;
    init = (word)nd_u64(); cmpA = (word)nd_u64(); newA = (word)nd_u64(); cmpB = (word)nd_u64(); newB = (word)nd_u64();
    if (pthread_create(&t, 0, threadA, 0)) { _Exit(78); }
    for (int i = 1; i <= rounds; ++i)
    {
        PUT(V, init);
        __atomic_store_n(&phase, i, __ATOMIC_RELEASE);
        for (spin = i & 63; spin; --spin) { __asm__ volatile(""); }
        rB = OP(OPB, cmpB, newB);
        while (__atomic_load_n(&backA, __ATOMIC_ACQUIRE) != i) { }
        fin = GET(V);
        if (!serial()) { bad = 1; }
    }
    pthread_join(t, 0);
    VP(T01, !bad, "two concurrent operations take effect one after the other");
}
static void* threadSum(void* p) { for (int i = 0; i < rounds; ++i) { OP(OPA, 0, 0); } return 0; }
void h_atomic_sum(void)
{
    pthread_t t;
    init = (word)nd_u64();
    PUT(V, init);
    if (pthread_create(&t, 0, threadSum, 0)) { _Exit(78); }
    for (int i = 0; i < rounds; ++i) { OP(OPB, 0, 0); }
    pthread_join(t, 0);
    fin = GET(V);
    VP(T01, fin == (word)(init + (u64)(OPA ? -rounds : rounds) + (u64)(OPB ? -rounds : rounds)), "no update is lost");
}
#endif
