/* Comparison callbacks, arithmetic and status macros, version encoding: header-only helpers that are
 * compiled here from the current headers, for all values. */
#include "vh.h"
#include <Zycore/Zycore.h>
#include <Zycore/Types.h>
#include <Zycore/Defines.h>
#include <Zycore/Status.h>
#include <Zycore/Comparison.h>
#include <Zycore/Format.h>

/* --------------------------------------------------------------- comparisons */
typedef struct { u8 pad[3]; ZyanI32 key; ZyanU64 big; i8 tail; } rec;
static ZYAN_DECLARE_EQUALITY_COMPARISON(eq_i8, i8)
static ZYAN_DECLARE_EQUALITY_COMPARISON(eq_i64, i64)
static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(eq_key, rec, key)
static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(eq_big, rec, big)
static ZYAN_DECLARE_COMPARISON(cmp_i8, i8)
static ZYAN_DECLARE_COMPARISON(cmp_i16, i16)
static ZYAN_DECLARE_COMPARISON(cmp_i32, i32)
static ZYAN_DECLARE_COMPARISON(cmp_i64, i64)
static ZYAN_DECLARE_COMPARISON_FOR_FIELD(cmp_key, rec, key)
static ZYAN_DECLARE_COMPARISON_FOR_FIELD(cmp_big, rec, big)
static ZYAN_DECLARE_COMPARISON_FOR_FIELD(cmp_tail, rec, tail)

#define EQ(F, T) do { T* l = vh_block(sizeof(T)); T* r = vh_block(sizeof(T)); *l = (T)a; *r = (T)b; ZyanBool q = F(l, r); \
        VP(C01, q == ((T)a == (T)b ? ZYAN_TRUE : ZYAN_FALSE), #F " is true exactly for equal values"); \
        VP(C01, *l == (T)a && *r == (T)b, #F " changes nothing"); q = F(l, l); VP(C01, q == ZYAN_TRUE, #F " is reflexive"); \
        VH_WITNESS_IF(q != 99 && (T)a == (T)b && (T)a != 0, #F " equal"); } while (0)
#define CMP(F, T) do { T* l = vh_block(sizeof(T)); T* r = vh_block(sizeof(T)); *l = (T)a; *r = (T)b; ZyanI32 q = F(l, r); ZyanI32 p = F(r, l); \
        VP(C01, q == ((T)a < (T)b ? -1 : (T)a > (T)b ? 1 : 0), #F " orders like the values"); VP(C01, q == -p, #F " is antisymmetric"); \
        VP(C01, *l == (T)a && *r == (T)b, #F " changes nothing"); \
        VH_WITNESS_IF(q > 0, #F " greater"); VH_WITNESS_IF(q < 0, #F " less"); } while (0)
void h_cmp(void)
{
    u64 a = nd_u64(), b = nd_u64();
    EQ(ZyanEqualsNumeric8, ZyanU8); EQ(ZyanEqualsNumeric16, ZyanU16); EQ(ZyanEqualsNumeric32, ZyanU32); EQ(ZyanEqualsNumeric64, ZyanU64);
    EQ(ZyanEqualsBool, ZyanBool); EQ(eq_i8, i8); EQ(eq_i64, i64);
    CMP(ZyanCompareNumeric8, ZyanU8); CMP(ZyanCompareNumeric16, ZyanU16); CMP(ZyanCompareNumeric32, ZyanU32); CMP(ZyanCompareNumeric64, ZyanU64);
    CMP(ZyanCompareBool, ZyanBool); CMP(cmp_i8, i8); CMP(cmp_i16, i16); CMP(cmp_i32, i32); CMP(cmp_i64, i64);
}
void h_cmp_field(void)
{
    rec* l = vh_block(sizeof(rec)); rec* r = vh_block(sizeof(rec));
    u64 a = nd_u64(), b = nd_u64(), c = nd_u64(), d = nd_u64(), e = nd_u64(), f = nd_u64();
    l->key = (i32)a; r->key = (i32)b; l->big = c; r->big = d; l->tail = (i8)e; r->tail = (i8)f;
    ZyanBool q = eq_key(l, r);
    VP(C01, q == ((i32)a == (i32)b), "field equality looks at the field");
    q = eq_big(l, r);
    VP(C01, q == (c == d), "field equality looks at the field");
    ZyanI32 p = cmp_key(l, r);
    VP(C01, p == ((i32)a < (i32)b ? -1 : (i32)a > (i32)b), "field comparison looks at the field");
    p = cmp_big(l, r);
    VP(C01, p == (c < d ? -1 : c > d), "field comparison looks at the field");
    VH_WITNESS_IF(p > 0, "field greater");
    p = cmp_tail(l, r);
    VP(C01, p == ((i8)e < (i8)f ? -1 : (i8)e > (i8)f), "field comparison looks at the field");
}
#ifndef ARENA
#define ARENA 300
#endif
void h_cmp_ptr(void)
{
    char* base = vh_block(ARENA);
    u64 i = nd_range(0, ARENA), j = nd_range(0, ARENA);
    void** l = vh_block(sizeof(void*)); void** r = vh_block(sizeof(void*));
    *l = base + i; *r = base + j;
    ZyanBool q = ZyanEqualsPointer(l, r);
    VP(C01, q == (i == j), "equal pointers are equal");
    ZyanI32 p = ZyanComparePointer(l, r);
    VP(C01, p == (i < j ? -1 : i > j), "pointers are ordered by address");
    VH_WITNESS_IF(p > 0, "pointer greater");
    *r = 0;
    q = ZyanEqualsPointer(l, r);
    VP(C01, q == ZYAN_FALSE, "no object is at the null pointer");
    *l = 0;
    q = ZyanEqualsPointer(l, r);
    VP(C01, q == ZYAN_TRUE, "null pointers are equal");
}

/* --------------------------------------------------------------- arithmetic */
#define MINMAX(T) do { T x = (T)a, y = (T)b, z = (T)c; \
        VP(C02, ZYAN_MIN(x, y) == (x < y ? x : y) && ZYAN_MIN(x, y) <= x && ZYAN_MIN(x, y) <= y, "ZYAN_MIN " #T); \
        VP(C02, ZYAN_MAX(x, y) == (x > y ? x : y) && ZYAN_MAX(x, y) >= x && ZYAN_MAX(x, y) >= y, "ZYAN_MAX " #T); \
        T m = x & y, n = x | z; \
        VP(C02, ZYAN_MIN(x & y, x | z) == (m < n ? m : n) && ZYAN_MAX(x & y, x | z) == (m > n ? m : n), "ZYAN_MIN, ZYAN_MAX of expressions " #T); \
        m = z & 1 ? x : y; \
        VP(C02, ZYAN_MIN(z & 1 ? x : y, y) == (m < y ? m : y) && ZYAN_MAX(z & 1 ? x : y, y) == (m > y ? m : y), "ZYAN_MIN, ZYAN_MAX of conditionals " #T); } while (0)
/* the absolute value is representable except for the smallest value */
#define ABSV(T, U, LOW) do { T x = (T)a, y = (T)(i8)b; if (x != LOW) { \
        VP(C02, ZYAN_ABS(x) >= 0 && (ZYAN_ABS(x) == x || ZYAN_ABS(x) == (T)(0 - x)), "ZYAN_ABS " #T); \
        if (x >= -1000 && x <= 1000) { VP(C02, ZYAN_ABS(x - y) == (x - y < 0 ? y - x : x - y), "ZYAN_ABS of an expression " #T); } } } while (0)
#define POW2(T, BITS) do { T x = (T)a, y = (T)b; unsigned ones = 0; \
        for (unsigned i = 0; i < BITS; ++i) { ones += (unsigned)((x >> i) & 1); } \
        VP(C02, (ZYAN_IS_POWER_OF_2(x) != 0) == (ones <= 1), "ZYAN_IS_POWER_OF_2 " #T); \
        T w = x | y; ones = 0; for (unsigned i = 0; i < BITS; ++i) { ones += (unsigned)((w >> i) & 1); } \
        VP(C02, (ZYAN_IS_POWER_OF_2(x | y) != 0) == (ones <= 1), "ZYAN_IS_POWER_OF_2 of an expression " #T); \
        VH_WITNESS_IF(x > 5 && ones == 1, "power of two " #T); } while (0)
#define ALIGN(T, BITS) do { T x = (T)a, al, rem; if (k < BITS) { al = (T)1 << k; rem = x - ((x >> k) << k); \
        VP(C02, (ZYAN_IS_ALIGNED_TO(x, al) != 0) == (rem == 0), "ZYAN_IS_ALIGNED_TO " #T); \
        VP(C02, ZYAN_ALIGN_DOWN(x, al) == (T)(x - rem), "ZYAN_ALIGN_DOWN " #T); \
        if (rem == 0) { VP(C02, ZYAN_ALIGN_UP(x, al) == x, "ZYAN_ALIGN_UP of an aligned value " #T); } \
        else if ((T)(x - rem + al) != 0) { VP(C02, ZYAN_ALIGN_UP(x, al) == (T)(x - rem + al), "ZYAN_ALIGN_UP " #T); } \
        T y = (T)b, w = x | y; \
        VP(C02, ZYAN_ALIGN_DOWN(x | y, (T)1 << k) == (T)((w >> k) << k), "ZYAN_ALIGN_DOWN of an expression " #T); \
        VP(C02, (ZYAN_IS_ALIGNED_TO(x | y, (T)1 << k) != 0) == ((T)((w >> k) << k) == w), "ZYAN_IS_ALIGNED_TO of an expression " #T); \
        if (w <= (T)~(T)0 - ((T)1 << k)) { T up = (T)(((w + ((T)1 << k) - 1) >> k) << k); VP(C02, ZYAN_ALIGN_UP(x | y, (T)1 << k) == up, "ZYAN_ALIGN_UP of an expression " #T); } \
        VH_WITNESS_IF(rem && k > 2, "unaligned " #T); } } while (0)
void h_pow2(void)
{
    u64 a = nd_u64(), b = nd_u64();
    POW2(u32, 32); POW2(u64, 64);
}
void h_align(void)
{
    u64 a = nd_u64(), b = nd_u64(), k = nd_below(64);
#if BITS == 32
    ALIGN(u32, 32);
#else
    ALIGN(u64, 64);
#endif
}
void h_arith(void)
{
    u64 a = nd_u64(), b = nd_u64(), c = nd_u64(), k = nd_below(64);
    MINMAX(u32); MINMAX(u64); MINMAX(i32); MINMAX(i64);
    ABSV(i32, u32, INT32_MIN); ABSV(i64, u64, INT64_MIN);
    VP(C02, ZyanAbsI64((i64)a) == ((i64)a < 0 ? (u64)0 - a : a), "ZyanAbsI64");
    u32 n = (u32)a; unsigned want = 0;
    for (unsigned i = 0; i < 32; ++i) { if (n >> i) { want = i + 1; } }
    VP(C02, ZYAN_BITS_TO_REPRESENT(n) == want, "ZYAN_BITS_TO_REPRESENT");
    VP(C02, ZYAN_BITS_TO_REPRESENT(n & 0xFFFFFFFF) == want, "ZYAN_BITS_TO_REPRESENT of an expression");
    u32 t = (u32)k & 31;
    VP(C02, (ZYAN_NEEDS_BIT(n, t) != 0) == (want > t), "ZYAN_NEEDS_BIT");
    u64 d = a; u32 dv = (u32)b & 15;
    if (dv)
    {
        d = a & 0xFFFF;
        u64 o = d;
        ZYAN_DIV64(d, dv);
        VP(C02, d * dv <= o && o - d * dv < dv, "ZYAN_DIV64");
    }
    u32 arr[7]; u8 ar2[1];
    VP(C02, ZYAN_ARRAY_LENGTH(arr) == 7 && ZYAN_ARRAY_LENGTH(ar2) == 1, "ZYAN_ARRAY_LENGTH");
    VH_WITNESS_IF(want == 32, "top bit");
}

/* --------------------------------------------------------------- status codes */
static ZyanStatus checked(ZyanStatus s, unsigned* n) { ZYAN_CHECK((++*n, s)); return 0x12345u; }
static ZyanStatus checked2(ZyanStatus s, ZyanStatus t, unsigned* n) { ZYAN_CHECK(*n ? s : t); return 0x12345u; }
void h_status(void)
{
    u32 e = (u32)nd_u64(), m = (u32)nd_u64(), c = (u32)nd_u64(), s = (u32)nd_u64(), t = (u32)nd_u64();
    ZyanStatus st = ZYAN_MAKE_STATUS(e & 1, m & 0x7FF, c & 0xFFFFF);
    VP(C02, ZYAN_STATUS_MODULE(st) == (m & 0x7FF), "the module of a composed status");
    VP(C02, ZYAN_STATUS_CODE(st) == (c & 0xFFFFF), "the code of a composed status");
    VP(C02, (ZYAN_SUCCESS(st) != 0) == ((e & 1) == 0), "the error bit decides success");
    VP(C02, (ZYAN_FAILED(st) != 0) == ((e & 1) != 0), "the error bit decides failure");
    VP(C02, ZYAN_MAKE_STATUS(e, m, c) == st, "composing ignores bits beyond the fields");
    VP(C02, ZYAN_MAKE_STATUS(ZYAN_FAILED(s) ? 1u : 0u, ZYAN_STATUS_MODULE(s), ZYAN_STATUS_CODE(s)) == s, "every status is made of its parts");
    VP(C02, (ZYAN_SUCCESS(s) != 0) != (ZYAN_FAILED(s) != 0), "a status is either success or failure");
    VP(C02, ZYAN_STATUS_MODULE(s | t) == (((s | t) >> 20) & 0x7FF) && ZYAN_STATUS_CODE(s | t) == ((s | t) & 0xFFFFF) && (ZYAN_SUCCESS(s | t) != 0) == ((i32)(s | t) >= 0) && (ZYAN_FAILED(s | t) != 0) == ((i32)(s | t) < 0), "status macros of expressions");
    unsigned n = 0;
    ZyanStatus r = checked(s, &n);
    VP(C02, r == ((i32)s < 0 ? s : 0x12345u) && n == 1, "ZYAN_CHECK returns exactly failures, evaluating its argument once");
    n = t & 1;
    r = checked2(s, t, &n);
    VP(C02, r == ((i32)(n ? s : t) < 0 ? (n ? s : t) : 0x12345u), "ZYAN_CHECK of a conditional");
    VH_WITNESS_IF((i32)s < 0, "failure");
    static const ZyanStatus all[] = { ZYAN_STATUS_SUCCESS, ZYAN_STATUS_TRUE, ZYAN_STATUS_FALSE, ZYAN_STATUS_FAILED, ZYAN_STATUS_INVALID_ARGUMENT,
        ZYAN_STATUS_INVALID_OPERATION, ZYAN_STATUS_ACCESS_DENIED, ZYAN_STATUS_NOT_FOUND, ZYAN_STATUS_OUT_OF_RANGE,
        ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, ZYAN_STATUS_NOT_ENOUGH_MEMORY, ZYAN_STATUS_BAD_SYSTEMCALL, ZYAN_STATUS_OUT_OF_RESOURCES,
        ZYAN_STATUS_MISSING_DEPENDENCY, ZYAN_STATUS_ARG_NOT_UNDERSTOOD, ZYAN_STATUS_TOO_FEW_ARGS, ZYAN_STATUS_TOO_MANY_ARGS,
        ZYAN_STATUS_ARG_MISSES_VALUE, ZYAN_STATUS_REQUIRED_ARG_MISSING };
#define NALL (sizeof(all) / sizeof(all[0]))
    u64 i = nd_below(NALL), j = nd_below(NALL);
    VP(C02, i == j || all[i] != all[j], "the predefined codes are distinct");
    VP(C02, (ZYAN_SUCCESS(all[i]) != 0) == (i < 3), "success, true and false succeed, all others fail");
    VP(C02, ZYAN_STATUS_MODULE(all[i]) == (i < 14 ? ZYAN_MODULE_ZYCORE : ZYAN_MODULE_ARGPARSE), "the predefined codes belong to their module");
    VP(C02, ZYAN_MODULE_ZYCORE != ZYAN_MODULE_ARGPARSE && ZYAN_MODULE_ARGPARSE < ZYAN_MODULE_USER && ZYAN_MODULE_ZYCORE < ZYAN_MODULE_USER && ZYAN_MODULE_USER <= 0x7FF, "the module ids are distinct, user modules come last");
}
void h_version(void)
{
    u64 v = nd_u64(), w = nd_u64();
    VP(C02, ZYCORE_VERSION_MAJOR(v) == (u16)(v >> 48) && ZYCORE_VERSION_MINOR(v) == (u16)(v >> 32) && ZYCORE_VERSION_PATCH(v) == (u16)(v >> 16) && ZYCORE_VERSION_BUILD(v) == (u16)v, "the version accessors return the fields");
    u64 u = v | w;
    VP(C02, ZYCORE_VERSION_MAJOR(v | w) == (u16)(u >> 48) && ZYCORE_VERSION_MINOR(v | w) == (u16)(u >> 32) && ZYCORE_VERSION_PATCH(v | w) == (u16)(u >> 16) && ZYCORE_VERSION_BUILD(v | w) == (u16)u, "the version accessors of an expression");
    VP(C02, (((u64)ZYCORE_VERSION_MAJOR(v) << 48) | ((u64)ZYCORE_VERSION_MINOR(v) << 32) | ((u64)ZYCORE_VERSION_PATCH(v) << 16) | ZYCORE_VERSION_BUILD(v)) == v, "the fields make up the version");
    u64 g = ZycoreGetVersion();
    VP(C02, g == ZYCORE_VERSION && g != 0, "the library reports the version of its header");
    VH_WITNESS_IF(v > w, "version");
}
