/* Views, search, comparison, creation, duplication and concatenation of strings. */
#include "vh_alloc.h"
#include <Zycore/String.h>
#ifndef HL
#define HL 4            /* longest haystack */
#endif
#ifndef NL
#define NL 3            /* longest needle */
#endif
#ifndef ATEND
#define ATEND 1
#endif
#ifndef CI
#define CI 0            /* case-insensitive */
#endif

/* The right-to-left searches compare addresses one before the text, which the solver's pointers cannot
 * express at the start of a block: one byte of arbitrary content precedes the text there. The native
 * replay keeps the exact block. */
#if defined(RIGHT) && RIGHT && defined(VH_SOLVER)
#define PAD 1
#else
#define PAD 0
#endif

/* A view of exactly n characters in an exactly sized block: no terminator follows (ATEND) or nothing
 * precedes it (!ATEND). Only data and size are set, like the constructors do. */
static u8* mk(ZyanStringView* v, u64 n, unsigned max, u8* copy)
{
    u8* b = vh_block(max + PAD);
    u8 pad = nd_u8();
    if (PAD) { *b = pad; }
    b += PAD;
    nd_bytes(b, max);
    u8* p = ATEND ? b + (max - n) : b;
    for (unsigned i = 0; i < max; ++i) { if (i < n) { copy[i] = p[i]; } }
    v->string.vector.data = p;
    v->string.vector.size = n + 1;
    return p;
}
static u8 fold(u8 c) { return CI && c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }

static u8 h[HL + 1], nd[NL + 1]; static u64 hn, nn;
static ZyanStringView hv, nv;
static int match_at(u64 pos)
{
    for (unsigned j = 0; j < NL; ++j) { if (j < nn && (pos + j >= HL || fold(h[pos + j]) != fold(nd[j]))) { return 0; } }
    return 1;
}
#ifndef RIGHT
#define RIGHT 0
#endif
void h_pos(void)
{
    hn = nd_range(0, HL); nn = nd_range(0, NL);
    mk(&hv, hn, HL, h); mk(&nv, nn, NL, nd);
    int ex = nd_bool();
    u64 idx = nd_usize(), c = nd_usize();
    ZyanISize fi = 77;
    ZyanStatus st;
    u64 lo, hi;      /* the range [lo, hi) */
    int legal;
#if RIGHT
    if (!ex) { idx = hn; c = hn; st = CI ? ZyanStringRPosI(&hv, &nv, &fi) : ZyanStringRPos(&hv, &nv, &fi); }
    else { st = CI ? ZyanStringRPosIEx(&hv, &nv, &fi, idx, c) : ZyanStringRPosEx(&hv, &nv, &fi, idx, c); }
    legal = idx <= hn && c <= idx;
    lo = idx - c; hi = idx;
#else
    if (!ex) { idx = 0; c = hn; st = CI ? ZyanStringLPosI(&hv, &nv, &fi) : ZyanStringLPos(&hv, &nv, &fi); }
    else { st = CI ? ZyanStringLPosIEx(&hv, &nv, &fi, idx, c) : ZyanStringLPosEx(&hv, &nv, &fi, idx, c); }
    legal = idx <= hn && c <= hn - idx;
    lo = idx; hi = idx + c;
#endif
    if (!legal)
    {
        VP(S05, st == ZYAN_STATUS_OUT_OF_RANGE, "a range outside the text is out of range");
        VP(S04, !ZYAN_SUCCESS(st), "a range outside the text is refused");
        VH_WITNESS("pos rejected");
        return;
    }
    u64 want = ~0ull;
    for (unsigned i = 0; i < HL; ++i)
    {
        unsigned p = RIGHT ? i : HL - 1 - i;
        if (nn && p >= lo && p + nn <= hi && match_at(p)) { want = p; }
    }
    VP(S05, st == (want != ~0ull ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "the status tells whether there is a match");
    VP(S05, (u64)fi == want, "the index is that of the first (last) match, or -1");
    VH_WITNESS_IF(nn == 2 && want == 1, "found");
    VH_WITNESS_IF(nn == 2 && want == ~0ull && c == HL, "not found");
}

static i32 sgn(ZyanI32 x) { return x < 0 ? -1 : x > 0; }
void h_cmp(void)
{
    static u8 a[HL + 1], b[HL + 1], c[HL + 1];
    ZyanStringView va, vb, vc;
    u64 an = nd_range(0, HL), bn = nd_range(0, HL), cn = nd_range(0, HL);
    mk(&va, an, HL, a); mk(&vb, bn, HL, b); mk(&vc, cn, HL, c);
    ZyanI32 ab = 77, ba = 77, bc = 77, ac = 77;
    ZyanStatus sab = CI ? ZyanStringCompareI(&va, &vb, &ab) : ZyanStringCompare(&va, &vb, &ab);
    ZyanStatus sba = CI ? ZyanStringCompareI(&vb, &va, &ba) : ZyanStringCompare(&vb, &va, &ba);
    int same = an == bn, ascii = 1; int d = 0;
    for (unsigned i = HL; i-- > 0; )
    {
        if (i < an && i < bn && fold(a[i]) != fold(b[i])) { same = 0; d = fold(a[i]) < fold(b[i]) ? -1 : 1; }
        if ((i < an && a[i] > 127) || (i < bn && b[i] > 127)) { ascii = 0; }
    }
    VP(S06, sab == (same ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "the status tells whether the texts are equal");
    VP(S06, (ab == 0) == same, "the result is zero exactly for equal texts");
    VP(S06, sab == sba && sgn(ab) == -sgn(ba), "comparison is antisymmetric");
    VP(S06, !(an == bn && ascii) || sgn(ab) == d, "equally long texts are ordered by their first difference");
    ZyanStatus sbc = CI ? ZyanStringCompareI(&vb, &vc, &bc) : ZyanStringCompare(&vb, &vc, &bc);
    ZyanStatus sac = CI ? ZyanStringCompareI(&va, &vc, &ac) : ZyanStringCompare(&va, &vc, &ac);
    VP(S06, !(ab <= 0 && bc <= 0) || (ac <= 0 && (ac < 0 || (ab == 0 && bc == 0))), "comparison is transitive");
    (void)sbc; (void)sac;
    VH_WITNESS_IF(same && an == HL, "equal");
    VH_WITNESS_IF(ab < 0 && bc < 0 && ac < 0, "chain");
}

/* views */
void h_view(void)
{
    static u8 t[HL + 1];
    ZyanStringView src, v;
    u64 n = nd_range(0, HL), k = nd_u64();
    u8* p = mk(&src, n, HL, t);
    int mode = (int)nd_below(4);
    u64 idx = nd_usize(), c = nd_usize();
    u8* z = vh_block(HL + 1);
    nd_bytes(z, HL + 1);
    z[HL] = 0;
    u64 sl = 0;
    for (unsigned i = HL; i-- > 0; ) { if (z[i] == 0) { sl = i; } else if (i == HL - 1) { sl = HL; } }
    sl = HL; for (unsigned i = HL + 1; i-- > 0; ) { if (z[i] == 0) { sl = i; } }
    ZyanStatus st;
    const u8* base; u64 len;
    v.string.vector.data = 0; v.string.vector.size = 77;
    if (mode == 0) { st = ZyanStringViewInsideView(&v, &src); base = p; len = n; }
    else if (mode == 1)
    {
        st = ZyanStringViewInsideViewEx(&v, &src, idx, c); base = p + (idx <= n ? idx : 0); len = c;
        if (idx > n || c > n - idx)
        {
            VP(S04, st == ZYAN_STATUS_OUT_OF_RANGE, "a view outside its source is out of range");
            VH_WITNESS("view rejected");
            return;
        }
    }
    else if (mode == 2) { st = ZyanStringViewInsideBuffer(&v, (const char*)z); base = z; len = sl; }
    else
    {
        len = nd_range(0, HL);
        st = ZyanStringViewInsideBufferEx(&v, (const char*)p, len <= n ? len : n); base = p; len = len <= n ? len : n;
        if (!len) { VP(S04, st == ZYAN_STATUS_INVALID_ARGUMENT || st == ZYAN_STATUS_SUCCESS, "an empty buffer is refused or gives an empty view"); if (st) { return; } }
    }
    VP(S04, st == ZYAN_STATUS_SUCCESS, "a legal view is created");
    u64 sz = 77; const char* dat = 0;
    VP(S04, ZyanStringViewGetSize(&v, &sz) == ZYAN_STATUS_SUCCESS && sz == len, "the view has the requested length");
    VP(S04, ZyanStringViewGetData(&v, &dat) == ZYAN_STATUS_SUCCESS && dat == (const char*)base, "the view shows the requested text");
    char ch = 77;
    st = ZyanStringGetChar(&v, k, &ch);
    if (k < len) { VP(S04, st == ZYAN_STATUS_SUCCESS && ch == (char)base[k], "each character of the view is readable"); }
    else { VP(S04, st == ZYAN_STATUS_OUT_OF_RANGE && ch == 77, "a character outside the view is out of range"); }
    VP(S04, src.string.vector.data == p && src.string.vector.size == n + 1, "the source is unchanged");
    VH_WITNESS_IF(mode == 1 && idx == 1 && c == HL - 1, "view of the tail");
    VH_WITNESS_IF(mode == 1 && idx == n && c == 0 && n == HL, "empty view at the end");
    VH_WITNESS_IF(mode == 2 && len == HL, "view of a C string");
    VH_WITNESS_IF(mode == 3 && len == HL && k == HL - 1, "view of a buffer");
}
void h_view_macro(void)
{
    static char text[HL + 1]; u64 k = nd_u64(), sz = 77; const char* dat = 0; char ch = 77;
    nd_bytes(text, HL + 1);
    text[HL] = 0;
    const ZyanStringView v = ZYAN_DEFINE_STRING_VIEW(text);
    VP(S04, ZyanStringViewGetSize(&v, &sz) == ZYAN_STATUS_SUCCESS && sz == HL, "a view of a literal has its length");
    VP(S04, ZyanStringViewGetData(&v, &dat) == ZYAN_STATUS_SUCCESS && dat == text, "a view of a literal shows its text");
    ZyanStatus st = ZyanStringGetChar(&v, k, &ch);
    VP(S04, k < HL ? st == ZYAN_STATUS_SUCCESS && ch == text[k] : st == ZYAN_STATUS_OUT_OF_RANGE, "each character of the view is readable");
    VP(S04, v.string.vector.element_size == 1 && !v.string.vector.allocator, "a view of a literal is a view of characters");
    ZyanString s;
    char* b = (char*)vh_block(HL + 1);
    st = ZyanStringInitCustomBuffer(&s, b, HL + 1);
    VP(S04, st == ZYAN_STATUS_SUCCESS && ZyanStringAppend(&s, &v) == ZYAN_STATUS_SUCCESS, "a view of a literal can be appended");
    const ZyanStringView* w = ZYAN_STRING_TO_VIEW(&s);
    sz = 77; dat = 0;
    VP(S04, ZyanStringViewGetSize(w, &sz) == ZYAN_STATUS_SUCCESS && sz == HL, "a string taken as a view has its length");
    VP(S04, ZyanStringViewGetData(w, &dat) == ZYAN_STATUS_SUCCESS && dat == b, "a string taken as a view shows its text");
    if (k < HL) { VP(S04, b[k] == text[k], "the text is that of the literal"); }
    VH_WITNESS_IF(k == HL - 1 && text[0] == 'a', "view of a literal");
}
void h_view_null(void)
{
    ZyanStringView v, src; u64 x = nd_usize(), y = nd_usize(); int w = (int)nd_below(11);
    static u8 t[HL + 1]; u64 sz; const char* dat;
    mk(&src, 2, HL, t);
    ZyanStatus st;
    switch (w)
    {
    case 0: st = ZyanStringViewInsideView(0, &src); break;
    case 1: st = ZyanStringViewInsideView(&v, 0); break;
    case 2: st = ZyanStringViewInsideViewEx(0, &src, x, y); break;
    case 3: st = ZyanStringViewInsideViewEx(&v, 0, x, y); break;
    case 4: st = ZyanStringViewInsideBuffer(0, "x"); break;
    case 5: st = ZyanStringViewInsideBuffer(&v, 0); break;
    case 6: st = ZyanStringViewInsideBufferEx(0, "x", 1); break;
    case 7: st = ZyanStringViewInsideBufferEx(&v, 0, x); break;
    case 8: st = ZyanStringViewGetSize(0, &sz); break;
    case 9: st = ZyanStringViewGetSize(&src, 0); break;
    default: st = ZyanStringViewGetData(0, &dat); break;
    }
    VP(S04, st == ZYAN_STATUS_INVALID_ARGUMENT, "a missing argument is refused");
    VH_WITNESS("null");
}

/* creation, duplication, concatenation */
static ZyanString d;
static void check_owned(u64 len, u64 cap, int custom, u8* buf, u64 bufcap, u8 gf, u8 th)
{
    u64 sz = 77, cp = 77;
    VP(S03, d.vector.size == len + 1 && ZyanStringGetSize(&d, &sz) == ZYAN_STATUS_SUCCESS && sz == len, "the new string has the right length");
    VP(S03, d.vector.element_size == 1 && d.vector.destructor == 0, "the new string holds characters");
    VP(S03, d.vector.data != 0 && d.vector.size <= d.vector.capacity && ((u8*)d.vector.data)[len] == 0, "the new string is NUL-terminated");
    if (custom)
    {
        VP(S03, d.vector.data == buf && d.vector.capacity == bufcap && d.vector.allocator == 0 && (d.flags & ZYAN_STRING_HAS_FIXED_CAPACITY), "the caller's buffer is used as it is");
        VP(S03, d.vector.shrink_threshold == 0, "a fixed buffer never shrinks");
        VP(A01, vh_ncalls == 0, "no allocator is called for a caller buffer");
    } else
    {
        VP(S03, ZyanStringGetCapacity(&d, &cp) == ZYAN_STATUS_SUCCESS && cp >= cap && cp >= len, "the new string has at least the requested capacity");
        VP(S03, d.vector.allocator == &vh_allocator && d.vector.growth_factor == gf && d.vector.shrink_threshold == th && d.flags == 0, "the new string has the requested settings");
        VP(S03, vh_nblk == 1 && vh_blks[0].live && vh_blks[0].p == d.vector.data && vh_blks[0].n == d.vector.capacity && vh_blks[0].es == 1, "the new string owns its storage");
        VP(A01, vh_nblk == 1 && vh_blks[0].live && vh_blks[0].p == d.vector.data && vh_blks[0].n == d.vector.capacity && vh_blks[0].es == 1, "the new string owns its storage");
    }
}
static void destroy(void)
{
    ZyanStatus st = ZyanStringDestroy(&d);
    VP(A01, st == ZYAN_STATUS_SUCCESS && vh_alloc_live() == 0, "destroying the string releases everything");
    VP(S03, st == ZYAN_STATUS_SUCCESS, "destroying the string succeeds");
}
void h_mk(void)
{
    static u8 a[HL + 1], b[NL + 1];
    ZyanStringView va, vb;
    int mode = (int)nd_below(3), custom = nd_bool(), fail = nd_bool();
    u64 an = nd_range(0, HL), bn = nd_range(0, NL), k = nd_u64(), cap = nd_usize();
    u8 gf = nd_u8(), th = nd_u8();
    u64 bcap = nd_range(0, HL + NL + 2);
    vh_alloc_init(fail);
    u8* pa = mk(&va, an, HL, a); u8* pb = mk(&vb, bn, NL, b);
    u8* buf = vh_block(HL + NL + 3);
    nd_bytes(buf, HL + NL + 3);
    u8 guard = buf[bcap];
    ZyanStatus st; u64 len;
    if (mode == 0)
    {
        st = custom ? ZyanStringInitCustomBuffer(&d, (char*)buf, bcap) : ZyanStringInitEx(&d, cap, &vh_allocator, gf, th);
        len = 0;
        if (custom && bcap == 0) { VP(S03, !ZYAN_SUCCESS(st), "a buffer without room is refused"); return; }
    } else if (mode == 1)
    {
        st = custom ? ZyanStringDuplicateCustomBuffer(&d, &va, (char*)buf, bcap) : ZyanStringDuplicateEx(&d, &va, cap, &vh_allocator, gf, th);
        len = an;
    } else
    {
        st = custom ? ZyanStringConcatCustomBuffer(&d, &va, &vb, (char*)buf, bcap) : ZyanStringConcatEx(&d, &va, &vb, cap, &vh_allocator, gf, th);
        len = an + bn;
    }
    VP(S03, va.string.vector.data == pa && va.string.vector.size == an + 1 && vb.string.vector.data == pb && vb.string.vector.size == bn + 1, "the sources are unchanged");
    if (k < an) { VP(S03, pa[k] == a[k], "the sources are unchanged"); }
    if (k < bn) { VP(S03, pb[k] == b[k], "the sources are unchanged"); }
    VP(S03, buf[bcap] == guard, "nothing is written behind the buffer");
    if (custom && bcap < len + 1)
    {
        VP(S03, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a buffer that cannot hold text and terminator is refused");
        VH_WITNESS_IF(bcap == len && mode == 2, "too small");
        return;
    }
    if (!custom && gf == 0) { VP(S03, !ZYAN_SUCCESS(st), "an invalid growth factor is refused"); VP(A01, vh_alloc_live() == 0, "nothing is left allocated"); return; }
    if (!custom && (fail || cap > VH_MAXBYTES || vh_too_big))
    {
        VP(S03, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "a failed allocation is passed on");
        VP(A01, vh_alloc_live() == 0, "nothing is left allocated");
        VH_WITNESS_IF(mode == 2 && cap == ~0ull && !fail, "huge");
        return;
    }
    VP(S03, st == ZYAN_STATUS_SUCCESS, "a legal creation succeeds");
    check_owned(len, cap, custom, buf, bcap, gf, th);
    if (k < len) { VP(S03, ((u8*)d.vector.data)[k] == (k < an ? a[k] : b[k - an]), "the new string has the right text"); }
    VH_WITNESS_IF(mode == 0 && !custom && cap > 35, "init");
    VH_WITNESS_IF(mode == 1 && !custom && an == HL, "duplicate");
    VH_WITNESS_IF(mode == 2 && custom && an == HL && bn == NL && bcap == HL + NL + 1, "concat");
    destroy();
}
/* the convenience wrappers with the default allocator */
void h_mk_default(void)
{
    static u8 a[HL + 1], b[NL + 1];
    ZyanStringView va, vb;
    u64 k = nd_below(HL + NL);
    mk(&va, HL, HL, a); mk(&vb, NL, NL, b);
    ZyanString x, y, z;
    VP(S03, ZyanStringInit(&x, 3) == ZYAN_STATUS_SUCCESS && x.vector.size == 1 && x.vector.capacity >= 4 && *(char*)x.vector.data == 0 && x.vector.allocator == ZyanAllocatorDefault()
        && x.vector.growth_factor == ZYAN_STRING_DEFAULT_GROWTH_FACTOR && x.vector.shrink_threshold == ZYAN_STRING_DEFAULT_SHRINK_THRESHOLD, "a new string is empty");
    VP(S03, ZyanStringDuplicate(&y, &va, 0) == ZYAN_STATUS_SUCCESS && y.vector.size == HL + 1 && y.vector.capacity >= HL + 1 && ((u8*)y.vector.data)[HL] == 0, "a duplicate has the right length");
    if (k < HL) { VP(S03, ((u8*)y.vector.data)[k] == a[k], "a duplicate has the right text"); }
    VP(S03, ZyanStringConcat(&z, &va, &vb, 0) == ZYAN_STATUS_SUCCESS && z.vector.size == HL + NL + 1 && ((u8*)z.vector.data)[HL + NL] == 0, "a concatenation has the right length");
    VP(S03, ((u8*)z.vector.data)[k] == (k < HL ? a[k] : b[k - HL]), "a concatenation has the right text");
    VP(S03, ZyanStringDestroy(&x) == ZYAN_STATUS_SUCCESS && ZyanStringDestroy(&y) == ZYAN_STATUS_SUCCESS && ZyanStringDestroy(&z) == ZYAN_STATUS_SUCCESS, "destroying succeeds");
    VH_WITNESS("default");
}
