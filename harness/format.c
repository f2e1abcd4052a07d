/* Decimal, hexadecimal and printf-style appending.
 * CAP/GF/TH/CUSTOM/FAIL as in string_ops.c; N0: longest existing text; HEX: 0 decimal, 1 hexadecimal;
 * SGN: the signed variants; DIG: most digits of a value; PADMAX: largest padding. */
#include "vh_alloc.h"
#include <stdarg.h>
#include <Zycore/Format.h>
#ifndef CAP
#define CAP 5
#endif
#ifndef N0
#define N0 2
#endif
#ifndef N0MIN
#define N0MIN 0
#endif
#ifndef GF
#define GF 2
#endif
#ifndef TH
#define TH 4
#endif
#ifndef CUSTOM
#define CUSTOM 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef HEX
#define HEX 0
#endif
#ifndef SGN
#define SGN 0
#endif
#ifndef DIG
#define DIG (HEX ? 16 : 20)
#endif
#ifndef POS
#define POS 0
#endif
#ifndef PADMAX
#define PADMAX 24
#endif
#if HEX
#define VF(c, m) VP(F02, c, m)
#else
#define VF(c, m) VP(F01, c, m)
#endif

static ZyanString s;
static u8 old[CAP];
static u64 n0, k;
static u8* buf0;

static void setup(void)
{
    n0 = N0MIN == N0 ? N0 : nd_range(N0MIN, N0);
    k = nd_u64();
    u64 fail = nd_u64();
    vh_alloc_init(FAIL ? fail : 0);
    s.flags = CUSTOM ? ZYAN_STRING_HAS_FIXED_CAPACITY : 0;
    s.vector.allocator = CUSTOM ? ZYAN_NULL : &vh_allocator;
    s.vector.growth_factor = CUSTOM ? 1 : GF;
    s.vector.shrink_threshold = CUSTOM ? 0 : TH;
    s.vector.capacity = CAP;
    s.vector.element_size = 1;
    s.vector.destructor = ZYAN_NULL;
    s.vector.data = CUSTOM ? vh_block(CAP) : vh_alloc_adopt(1, CAP, CAP);
    s.vector.size = n0 + 1;
    u8* d = s.vector.data;
    nd_bytes(d, CAP);
    for (unsigned i = 0; i < CAP; ++i) { if (i == n0) { d[i] = 0; } old[i] = d[i]; }
    buf0 = d;
}
#define VA(c, m) do { VP(F01, c, m); VP(F02, c, m); VP(F03, c, m); } while (0)
static void check_valid(void)
{
    VA(s.vector.size >= 1 && s.vector.size <= s.vector.capacity, "the size is within the capacity");
    VA(((u8*)s.vector.data)[s.vector.size - 1] == 0, "the text is NUL-terminated at its size");
    VA(s.vector.element_size == 1 && s.flags == (CUSTOM ? ZYAN_STRING_HAS_FIXED_CAPACITY : 0), "settings are kept");
    if (CUSTOM) { VA(s.vector.data == buf0 && s.vector.capacity == CAP && vh_ncalls == 0, "a fixed buffer is kept"); }
    else
    {
        int found = 0;
        for (unsigned i = 0; i < VH_MAXBLK; ++i)
        {
            if (i < vh_nblk && vh_blks[i].live && vh_blks[i].p == s.vector.data && vh_blks[i].n == s.vector.capacity) { found = 1; }
        }
        VA(found && vh_alloc_live() == 1, "storage and capacity are what the allocator granted");
    }
}
static void kept(void)
{
    VA(s.vector.size == n0 + 1, "the length is unchanged");
    if (k < n0) { VA(((u8*)s.vector.data)[k] == old[k], "the old text is unchanged"); }
    check_valid();
}
static void result(u64 len, int c)     /* c: expected character at index k, if k < len */
{
    VA(s.vector.size == len + 1, "the new length is old length plus appended text");
    check_valid();
    if (k < len) { VA(k < s.vector.size && ((u8*)s.vector.data)[k] == (u8)c, "the text is the old text followed by the new one"); }
}

/* the value: DIG digits, least significant first */
static u8 dig[DIG]; static u64 mag, nd;
static void value(void)
{
    mag = 0; nd = 1;
#ifdef VALUE
    /* one value, all storage situations: keeps the unrolled digit loop concrete */
    mag = VALUE;
    u64 v = VALUE;
    for (unsigned i = 0; i < DIG; ++i) { dig[i] = HEX ? v % 16 : v % 10; v /= HEX ? 16 : 10; if (dig[i]) { nd = i + 1; } }
#elif defined(BASE)
    /* all values of a window BASE + x*10^POS, x < 10^WIN */
    u64 b = BASE, off = 0, p = 1; u8 carry = 0;
    for (unsigned i = 0; i < POS; ++i) { p *= 10; }
    for (unsigned i = 0; i < DIG; ++i)
    {
        u8 o = i >= POS && i < POS + WIN ? (u8)nd_below(10) : 0;
        u8 t = (u8)(b % 10 + carry + o); b /= 10;
        if (i >= POS && i < POS + WIN) { off += o * p; p *= 10; }
        carry = t > 9; dig[i] = t > 9 ? t - 10 : t;
        if (dig[i]) { nd = i + 1; }
    }
    VH_ASSUME(off <= ~(u64)0 - BASE);
    mag = BASE + off;
#elif HEX
    u64 v = nd_u64();
    VH_ASSUME(DIG >= 16 || v < 1ull << 4 * (DIG % 16));
    for (unsigned i = 0; i < DIG; ++i) { dig[i] = v >> 4 * i & 15; if (dig[i]) { nd = i + 1; } }
    mag = v;
#else
    u64 p = 1;
    for (unsigned i = 0; i < DIG; ++i)
    {
        dig[i] = (u8)nd_below(10);
        if (i == 19) { VH_ASSUME(dig[i] == 0 || (dig[i] == 1 && mag <= ~0ull - p)); }
        mag += dig[i] * p;
        p *= 10;
        if (dig[i]) { nd = i + 1; }
    }
#endif
}
void h_num(void)
{
    setup();
    value();
    u64 pad = nd_range(0, PADMAX);
    u8 upper = (u8)nd_bool();
    int neg = nd_bool(), force = nd_bool(), haspre = nd_bool();
#ifdef PN
    u64 pn = PN;
#else
    u64 pn = nd_range(0, 2);
#endif
#ifdef NEG
    neg = NEG; force = !NEG; haspre = 1;
#endif
    u8* pb = vh_block(2);
    nd_bytes(pb, 2);
    ZyanStringView pre;
    pre.string.vector.data = pb + (2 - pn); pre.string.vector.size = pn + 1;
    ZyanStatus st;
#if SGN
    VH_ASSUME(neg ? mag >= 1 && mag <= 1ull << 63 : mag < 1ull << 63);
    i64 v = (i64)(neg ? ~mag + 1 : mag);
#if HEX
    st = ZyanStringAppendHexS(&s, v, (ZyanU8)pad, upper, (ZyanBool)force, haspre ? &pre : 0);
#else
    st = ZyanStringAppendDecS(&s, v, (ZyanU8)pad, (ZyanBool)force, haspre ? &pre : 0);
#endif
    u64 sl = neg || force, pl = haspre ? pn : 0;
#else
    u64 sl = 0, pl = 0;
#if HEX
    st = ZyanStringAppendHexU(&s, mag, (ZyanU8)pad, upper);
#else
    st = ZyanStringAppendDecU(&s, mag, (ZyanU8)pad);
#endif
#endif
    u64 w = nd > pad ? nd : pad;
    u64 len = n0 + sl + pl + w;
    /* growing a mostly empty string may first try to give memory back, and report its failure */
    if ((len + 1 > CAP && (CUSTOM || vh_nfailed || vh_too_big)) || (vh_nfailed && !ZYAN_SUCCESS(st)))
    {
        VF(st == (CUSTOM ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY), "an append without room is refused");
#if SGN
        /* sign and prefix may already have been appended */
        check_valid();
        VF(s.vector.size >= n0 + 1 && s.vector.size <= n0 + sl + pl + 1, "no digit is appended without room");
        if (k < n0) { VF(((u8*)s.vector.data)[k] == old[k], "the old text is unchanged"); }
#else
        kept();
#endif
#if CAP < N0 + DIG + 1 && (CUSTOM || FAIL)
        VH_WITNESS_IF(w == nd, "no room");
#endif
    } else
    {
        VF(st == ZYAN_STATUS_SUCCESS, "an append with room succeeds");
        int c = 0;
        if (k < n0) { c = old[k]; }
        else if (k < n0 + sl) { c = neg ? '-' : '+'; }
        else if (k < n0 + sl + pl) { c = pb[2 - pn + (k - n0 - sl)]; }
        else if (k < len)
        {
            u64 r = len - 1 - k;       /* place value */
            u8 g = r < DIG ? dig[r] : 0;
            c = g < 10 ? '0' + g : (upper ? 'A' : 'a') + g - 10;
        }
        result(len, c);
#if !CUSTOM || CAP >= N0 + DIG + 1 + SGN
        VH_WITNESS_IF(nd == DIG && n0 == N0 && !pad, "longest value");
#endif
#if !CUSTOM || CAP >= PADMAX + N0MIN + 1
        VH_WITNESS_IF(pad == PADMAX, "padded");
#endif
#if !defined(VALUE) && !defined(BASE) && !defined(NEG)
        VH_WITNESS_IF(mag == 0 && !pad, "zero");
#endif
#if SGN
#ifndef NEG
        VH_WITNESS_IF(neg, "negative");
#endif
        VH_WITNESS_IF((neg || force) && haspre && pn >= 1, "sign and prefix");
#endif
    }
    if (!CUSTOM) { ZyanStringDestroy(&s); VA(vh_alloc_live() == 0, "destroying the string releases everything"); }
}
void h_num_null(void)
{
    u64 v = nd_u64(); u64 pad = nd_u8(); int w = (int)nd_below(4);
    ZyanStatus st = w == 0 ? ZyanStringAppendDecU(0, v, (ZyanU8)pad) : w == 1 ? ZyanStringAppendDecS(0, (i64)v, (ZyanU8)pad, 0, 0)
        : w == 2 ? ZyanStringAppendHexU(0, v, (ZyanU8)pad, 0) : ZyanStringAppendHexS(0, (i64)v, (ZyanU8)pad, 0, 0, 0);
    VF(st == ZYAN_STATUS_INVALID_ARGUMENT, "a missing string is refused");
    VH_WITNESS("null");
}

/* ---- printf-style: the formatter is a model that follows the C standard's vsnprintf contract */
#ifndef WMAX
#define WMAX 6
#endif
int vh_va_open;
static int calls; static u64 wr[2]; static u8 gen[WMAX + 1];
static const char* fmt = "%d%s";
static u8 gone[2];
#ifdef VH_SOLVER
struct vh_one { int started, used, ended; };
int vh_vsnprintf(char* b, size_t n, const char* f, struct vh_one* ap)
{
    VP(F03, ap->started == 1 && !ap->ended, "the formatter gets a started argument list");
    VP(F03, !ap->used, "the formatter gets the arguments from the first one on");
    ap->used = 1;
#else
int vh_vsnprintf(char* b, size_t n, const char* f, va_list ap)
{
    int a = va_arg(ap, int); const char* z = va_arg(ap, const char*); double q = va_arg(ap, double);
    VP(F03, a == 4711 && z == fmt && q == 2.5, "the formatter gets the arguments from the first one on");
#endif
    VP(F03, f == fmt, "the formatter gets the caller's format");
    unsigned c = calls < 1 ? 0 : 1;
    ++calls;
    if (gone[c])
    {
        /* a failing formatter may leave anything in the buffer it was given */
        for (u64 i = 0; i < WMAX; ++i) { if (i < n) { b[i] = 'x'; } }
        return -1;
    }
    u64 w = wr[0];
    for (u64 i = 0; i < WMAX; ++i) { if (i < w && i + 1 < n) { b[i] = (char)gen[i]; } }
    if (n) { b[w < n ? w : n - 1] = 0; }
    return (int)w;
}
void h_fmt(void)
{
    setup();
    wr[0] = nd_range(0, WMAX);
    for (unsigned i = 0; i < 2; ++i) { gone[i] = (u8)nd_bool(); }
    nd_bytes(gen, WMAX);
    calls = 0; vh_va_open = 0;
    int null = nd_bool(), nf = nd_bool();
    if (null)
    {
        ZyanStatus r = nf ? ZyanStringAppendFormat(&s, 0) : ZyanStringAppendFormat(0, fmt, 4711, fmt, 2.5);
        VP(F03, r == ZYAN_STATUS_INVALID_ARGUMENT && calls == 0, "a missing argument is refused");
        kept();
        VH_WITNESS("null");
        return;
    }
    ZyanStatus st = ZyanStringAppendFormat(&s, fmt, 4711, fmt, 2.5);
    u64 w = wr[0], len = n0 + w;
    VP(F03, vh_va_open == 0, "every argument list is ended");
    VP(F03, calls >= 1, "the formatter is asked");
    if (gone[0] || (calls > 1 && gone[1]))
    {
        VP(F03, st == ZYAN_STATUS_FAILED, "a formatter failure is reported");
        kept();
        VH_WITNESS_IF(calls == 1, "formatter fails at once");
#if !CUSTOM
        VH_WITNESS_IF(calls == 2, "formatter fails later");
#endif
    } else if (len + 1 > CAP && (CUSTOM || vh_nfailed || vh_too_big))
    {
        VP(F03, st == (CUSTOM ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY), "text without room is refused");
        kept();
#if CUSTOM || FAIL
        VH_WITNESS_IF(w == WMAX, "no room");
#endif
    } else
    {
        VP(F03, st == ZYAN_STATUS_SUCCESS, "text with room is appended");
        result(len, k < n0 ? old[k] : k - n0 < WMAX ? gen[k - n0] : 0);
        VH_WITNESS_IF(w == CAP - 1 - N0 && n0 == N0, "just fits");
#if !CUSTOM
        VH_WITNESS_IF(len + 1 > CAP, "grown");
#endif
    }
    if (!CUSTOM) { ZyanStringDestroy(&s); VA(vh_alloc_live() == 0, "destroying the string releases everything"); }
}
