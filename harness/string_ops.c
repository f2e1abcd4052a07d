/* One-step harnesses for ZyanString edits: an arbitrary valid string (length 0..CAP-1, any content),
 * one edit with arbitrary arguments, comparison with the text meaning, then destruction.
 * CAP: buffer size including the terminator; MAXS: longest source view; GF/TH growth and shrink
 * settings; CUSTOM: caller buffer; FAIL: arbitrary allocator failures; ATEND: the source view ends
 * at the end of its memory block (1) or starts at its beginning (0). */
#include "vh_alloc.h"
#include <Zycore/String.h>
#ifndef CAP
#define CAP 5
#endif
#ifndef MAXS
#define MAXS 3
#endif
#ifndef GF
#define GF 2
#endif
#ifndef TH
#define TH 4
#endif
#ifndef CUSTOM
#define CUSTOM 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef ATEND
#define ATEND 1
#endif

static ZyanString s;
static u8 old[CAP];
static u64 n0, k;
static u8* buf0;
static ZyanStringView view;
static u8 in[MAXS + 1]; static u64 m;        /* the source text and its length */

static void setup(void)
{
    n0 = nd_range(0, CAP - 1);
    m = nd_range(0, MAXS);
    k = nd_u64();
    u64 fail = nd_u64();
    vh_alloc_init(FAIL ? fail : 0);
    s.flags = CUSTOM ? ZYAN_STRING_HAS_FIXED_CAPACITY : 0;
    s.vector.allocator = CUSTOM ? ZYAN_NULL : &vh_allocator;
    s.vector.growth_factor = CUSTOM ? 1 : GF;
    s.vector.shrink_threshold = CUSTOM ? 0 : TH;
    s.vector.capacity = CAP;
    s.vector.element_size = 1;
    s.vector.destructor = ZYAN_NULL;
    s.vector.data = CUSTOM ? vh_block(CAP) : vh_alloc_adopt(1, CAP, CAP);
    s.vector.size = n0 + 1;
    u8* d = s.vector.data;
    nd_bytes(d, CAP);
    for (unsigned i = 0; i < CAP; ++i) { if (i == n0) { d[i] = 0; } old[i] = d[i]; }
    buf0 = d;
    u8* b = vh_block(MAXS);
    nd_bytes(b, MAXS);
    u8* p = ATEND ? b + (MAXS - m) : b;
    for (unsigned i = 0; i < MAXS; ++i) { if (i < m) { in[i] = p[i]; } }
    /* as the view constructors do, only data and size are set */
    view.string.vector.data = p;
    view.string.vector.size = m + 1;
}

static u64 final_n;
static void check_valid(u64 expect)
{
    u64 sz = ~expect, cap = 0; const char* dat = 0;
    VP(S01, s.vector.size == expect + 1, "length after the edit");
    VP(S02, s.vector.size == expect + 1, "length after the edit");
    VP(S01, s.vector.size <= s.vector.capacity && s.vector.size >= 1, "the size is within the capacity");
    VP(S02, s.vector.size <= s.vector.capacity && s.vector.size >= 1, "the size is within the capacity");
    if (s.vector.size >= 1 && s.vector.size <= s.vector.capacity)
    {
        VP(S01, ((u8*)s.vector.data)[s.vector.size - 1] == 0, "the text is NUL-terminated at its size");
        VP(S02, ((u8*)s.vector.data)[s.vector.size - 1] == 0, "the text is NUL-terminated at its size");
        VP(S01, ZyanStringGetSize(&s, &sz) == ZYAN_STATUS_SUCCESS && sz == expect, "GetSize reports the length");
        VP(S01, ZyanStringGetCapacity(&s, &cap) == ZYAN_STATUS_SUCCESS && cap == s.vector.capacity - 1, "GetCapacity reports the capacity without the terminator");
        VP(S01, ZyanStringGetData(&s, &dat) == ZYAN_STATUS_SUCCESS && dat == (const char*)s.vector.data, "GetData gives the text");
    }
    if (CUSTOM)
    {
        VP(S02, s.vector.data == buf0 && s.vector.capacity == CAP && s.vector.allocator == 0, "a fixed buffer is kept");
        VP(S01, s.vector.data == buf0 && s.vector.capacity == CAP, "a fixed buffer is kept");
        VP(A01, vh_ncalls == 0 && vh_nfree == 0, "no allocator is called for a caller buffer");
    } else
    {
        VP(A01, vh_alloc_live() == 1, "the string owns exactly one block");
        for (unsigned i = 0; i < VH_MAXBLK; ++i)
        {
            if (i < vh_nblk && vh_blks[i].live)
            {
                int ok = vh_blks[i].p == s.vector.data && vh_blks[i].n == s.vector.capacity && vh_blks[i].es == 1;
                VP(S01, ok, "storage and capacity are what the allocator granted");
                VP(S02, ok, "storage and capacity are what the allocator granted");
                VP(A01, ok, "storage and capacity are what the allocator granted");
            }
        }
    }
    VP(S01, s.flags == (CUSTOM ? ZYAN_STRING_HAS_FIXED_CAPACITY : 0), "flags are unchanged");
    final_n = expect;
}
static int at_is(u64 i, u8 c)
{
    return i < s.vector.size && ((u8*)s.vector.data)[i] == c;
}
static void check_source(void)
{
    VP(S02, view.string.vector.size == m + 1, "the source view is unchanged");
    if (k < m) { VP(S02, ((u8*)view.string.vector.data)[k] == in[k], "the source text is unchanged"); }
}
static void unchanged(void)
{
    check_valid(n0);
    if (k < n0)
    {
        VP(S01, at_is(k, old[k]), "a refused edit changes no character");
        VP(S02, at_is(k, old[k]), "a refused edit changes no character");
    }
    check_source();
}
static void finish(void)
{
    ZyanStatus st = ZyanStringDestroy(&s);
    VP(A01, st == ZYAN_STATUS_SUCCESS, "destroying a string succeeds");
    VP(A01, vh_alloc_live() == 0 && (!CUSTOM || vh_nfree == 0), "destroying a string releases everything");
}
/* the edit needs `need` characters; true if it must be refused for lack of room */
static int no_room(u64 need, ZyanStatus st)
{
    /* an edit that would give memory back may report that the allocator could not do so */
    if (vh_nfailed && need + 1 <= CAP) { return !ZYAN_SUCCESS(st); }
    return need + 1 > CAP && (CUSTOM || vh_nfailed || vh_too_big);
}
static void refused_room(ZyanStatus st)
{
    VP(S01, !ZYAN_SUCCESS(st), "an edit without room for it is refused");
    if (CUSTOM) { VP(S02, st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a full fixed buffer is reported as such"); }
    else { VP(S02, st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "an allocator failure is passed on"); }
    unchanged();
    VP(S02, s.vector.data == buf0 && s.vector.capacity == CAP, "storage is kept");
}
static void inserted(ZyanStatus st, u64 idx, const u8* t, u64 c)
{
    VP(S01, st == ZYAN_STATUS_SUCCESS, "a legal edit succeeds");
    VP(S02, st == ZYAN_STATUS_SUCCESS, "a legal edit succeeds");
    check_valid(n0 + c);
    if (k < n0 + c)
    {
        u8 e = k < idx ? old[k] : k < idx + c ? t[k - idx] : old[k - c];
        VP(S01, at_is(k, e), "the new text is exactly where it belongs, the rest is unchanged");
        VP(S02, at_is(k, e), "the new text is exactly where it belongs, the rest is unchanged");
    }
    check_source();
}

void h_append(void)
{
    setup();
    int ex = nd_bool();
    u64 si = nd_usize(), c = nd_usize();
    ZyanStatus st;
    if (ex) { st = ZyanStringAppendEx(&s, &view, si, c); }
    else { si = 0; c = m; st = ZyanStringAppend(&s, &view); }
    if (si > m || c > m - si)
    {
        VP(S02, st == ZYAN_STATUS_OUT_OF_RANGE, "a source range outside the view is out of range");
        unchanged();
        VH_WITNESS("append rejected");
    } else if (no_room(n0 + c, st)) { refused_room(st); }
    else { inserted(st, n0, in + si, c); VH_WITNESS_IF(c == MAXS, "append"); VH_WITNESS_IF(ex && si == 1, "append part"); }
    finish();
}
void h_insert(void)
{
    setup();
    int ex = nd_bool();
    u64 idx = nd_usize(), si = nd_usize(), c = nd_usize();
    ZyanStatus st;
    if (ex) { st = ZyanStringInsertEx(&s, idx, &view, si, c); }
    else { si = 0; c = m; st = ZyanStringInsert(&s, idx, &view); }
    if (idx > n0 + 1 || si > m || c > m - si)
    {
        VP(S02, st == ZYAN_STATUS_OUT_OF_RANGE, "a position or range outside the text is out of range");
        unchanged();
        VH_WITNESS_IF(idx <= n0, "insert rejected for its source");
        VH_WITNESS_IF(idx > n0 + 2, "insert rejected for its position");
    } else if (idx == n0 + 1 && !ZYAN_SUCCESS(st))
    {
        /* one behind the end: refused, or taken as an append (documented for the end only) */
        unchanged();
    } else if (no_room(n0 + c, st)) { refused_room(st); }
    else if (c == 0 && !ZYAN_SUCCESS(st))
    {
        VP(S01, st == ZYAN_STATUS_INVALID_ARGUMENT, "an empty insertion has no effect");
        unchanged();
    } else
    {
        inserted(st, idx > n0 ? n0 : idx, in + si, c);
        VH_WITNESS_IF(c == 2 && idx < n0, "insert in the middle");
        VH_WITNESS_IF(c == 2 && idx == n0, "insert at the end");
    }
    finish();
}
void h_remove(void)
{
    setup();
    int mode = (int)nd_below(3);
    u64 idx = nd_usize(), c = nd_usize();
    ZyanStatus st;
    if (mode == 0) { st = ZyanStringDelete(&s, idx, c); }
    else if (mode == 1) { st = ZyanStringTruncate(&s, idx); c = n0 - idx; }
    else { idx = 0; c = n0; st = ZyanStringClear(&s); }
    if (idx > n0 || c > n0 - idx)
    {
        VP(S02, st == ZYAN_STATUS_OUT_OF_RANGE, "a range outside the text is out of range");
        unchanged();
        VH_WITNESS("remove rejected");
    } else if (c == 0 && !ZYAN_SUCCESS(st))
    {
        VP(S01, vh_nfailed || (mode != 2 && st == ZYAN_STATUS_INVALID_ARGUMENT), "removing nothing has no effect");
        unchanged();
    } else if (!ZYAN_SUCCESS(st) && s.vector.size == n0 + 1)
    {
        VP(S01, vh_nfailed > 0, "a legal edit succeeds");
        VP(S02, vh_nfailed > 0 && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "a removal only fails when the allocator did");
        unchanged();
    } else
    {
        VP(S01, st == ZYAN_STATUS_SUCCESS || vh_nfailed > 0, "a legal edit succeeds");
        check_valid(n0 - c);
        if (k < n0 - c)
        {
            VP(S01, at_is(k, old[k < idx ? k : k + c]), "exactly the named characters are removed");
            VP(S02, at_is(k, old[k < idx ? k : k + c]), "exactly the named characters are removed");
        }
        VH_WITNESS_IF(mode == 0 && c == 2 && idx + c < n0, "delete in the middle");
        VH_WITNESS_IF(mode == 1 && c == 2, "truncate");
        VH_WITNESS_IF(mode == 2 && c == 2, "clear");
    }
    finish();
}
void h_resize(void)
{
    setup();
    int mode = (int)nd_below(3);
    u64 n = nd_usize();
    ZyanStatus st;
    if (mode == 0)
    {
        st = ZyanStringResize(&s, n);
        if (n >= CAP && (CUSTOM || vh_nfailed || vh_too_big || n > VH_MAXBYTES)) 
        {
            VP(S01, !ZYAN_SUCCESS(st), "an edit without room for it is refused");
            VP(S02, st == (CUSTOM && n + 1 ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY) || (CUSTOM && st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE), "the lack of room is reported");
            unchanged();
            VH_WITNESS_IF(n == ~0ull, "huge resize");
        } else if (!ZYAN_SUCCESS(st))
        {
            VP(S01, vh_nfailed > 0, "a legal edit succeeds");
            VP(S02, vh_nfailed > 0, "a legal edit succeeds");
            unchanged();
        } else
        {
            VP(S01, st == ZYAN_STATUS_SUCCESS, "a legal edit succeeds");
            check_valid(n);
            if (k < n0 && k < n) { VP(S01, at_is(k, old[k]), "the kept characters are unchanged"); VP(S02, at_is(k, old[k]), "the kept characters are unchanged"); }
            VH_WITNESS_IF(n < n0, "resize down");
            VH_WITNESS_IF(n > n0, "resize up");
        }
    } else if (mode == 1)
    {
        st = ZyanStringReserve(&s, n);
        if (n >= CAP && (CUSTOM || vh_nfailed || vh_too_big || n > VH_MAXBYTES))
        {
            VP(S02, !ZYAN_SUCCESS(st), "a reservation without room is refused");
            unchanged();
            VP(S02, s.vector.capacity == CAP && s.vector.data == buf0, "storage is kept");
        } else
        {
            VP(S01, st == ZYAN_STATUS_SUCCESS, "a legal reservation succeeds");
            VP(S02, st == ZYAN_STATUS_SUCCESS, "a legal reservation succeeds");
            VP(S01, s.vector.capacity > n, "the capacity holds the requested characters and the terminator");
            unchanged();
            VH_WITNESS_IF(CUSTOM || n >= CAP, "reserve");
        }
    } else
    {
        st = ZyanStringShrinkToFit(&s);
        VP(S01, vh_nfailed || st == ZYAN_STATUS_SUCCESS, "shrink-to-fit succeeds");
        VP(S02, vh_nfailed || st == ZYAN_STATUS_SUCCESS, "shrink-to-fit succeeds");
        unchanged();
        VH_WITNESS_IF(n0 == 1, "shrink to fit");
    }
    finish();
}
void h_char(void)
{
    setup();
    int mode = (int)nd_below(2);
    u64 idx = nd_usize();
    u8 c = nd_u8();
    ZyanStatus st;
    char* p = (char*)in;
    if (mode == 0) { st = ZyanStringSetChar(&s, idx, (char)c); }
    else { st = ZyanStringGetCharMutable(&s, idx, &p); }
    if (idx == ~0ull)
    {
        VP(S02, !ZYAN_SUCCESS(st), "an index outside the text is refused");
        unchanged();
    } else if (idx >= n0)
    {
        VP(S02, st == ZYAN_STATUS_OUT_OF_RANGE, "an index outside the text is out of range");
        unchanged();
        VH_WITNESS("char rejected");
    } else
    {
        VP(S01, st == ZYAN_STATUS_SUCCESS, "a legal edit succeeds");
        if (mode == 1)
        {
            VP(S01, p == (char*)s.vector.data + idx, "the pointer addresses the character");
            VP(S02, p == (char*)s.vector.data + idx, "the pointer addresses the character");
            if (p == (char*)s.vector.data + idx) { *p = (char)c; }
        }
        check_valid(n0);
        if (k < n0) { VP(S01, at_is(k, k == idx ? c : old[k]), "exactly the named character is replaced"); VP(S02, at_is(k, k == idx ? c : old[k]), "exactly the named character is replaced"); }
        VH_WITNESS("char");
    }
    finish();
}
void h_case(void)
{
    setup();
    int up = nd_bool(), ex = nd_bool();
    u64 idx = nd_usize(), c = nd_usize();
    ZyanStatus st;
    if (!ex) { idx = 0; c = n0; st = up ? ZyanStringToUpperCase(&s) : ZyanStringToLowerCase(&s); }
    else { st = up ? ZyanStringToUpperCaseEx(&s, idx, c) : ZyanStringToLowerCaseEx(&s, idx, c); }
    VP(S07, s.vector.size == n0 + 1 && s.vector.capacity == CAP && s.vector.data == buf0, "case conversion keeps size and storage");
    if (idx > n0 || c > n0 - idx)
    {
        VP(S07, st == ZYAN_STATUS_OUT_OF_RANGE, "a range outside the text is out of range");
        if (k < CAP) { VP(S07, buf0[k] == old[k], "a refused conversion changes nothing"); }
        VH_WITNESS("case rejected");
    } else
    {
        VP(S07, st == ZYAN_STATUS_SUCCESS, "a legal conversion succeeds");
        if (k < CAP)
        {
            u8 o = old[k], e = o;
            if (k >= idx && k < idx + c)
            {
                if (up && o >= 'a' && o <= 'z') { e = o - 'a' + 'A'; }
                if (!up && o >= 'A' && o <= 'Z') { e = o - 'A' + 'a'; }
            }
            VP(S07, buf0[k] == e, "exactly the letters in the range are converted");
        }
        VH_WITNESS_IF(ex && up && c == 2, "upper");
        VH_WITNESS_IF(!ex && !up && c == 2, "lower");
    }
    finish();
}
void h_null(void)
{
    setup();
    int w = (int)nd_below(30);
    u64 x = nd_usize(); u64 sz; char* pc; ZyanISize fi; ZyanI32 r; const char* cp; char ch;
    ZyanStringView empty = view; empty.string.vector.size = 0;
    ZyanString d;
    ZyanStatus st;
    switch (w)
    {
    case 0: st = ZyanStringDestroy(0); break;
    case 1: st = ZyanStringAppend(0, &view); break;
    case 2: st = ZyanStringAppend(&s, 0); break;
    case 3: st = ZyanStringAppend(&s, &empty); break;
    case 4: st = ZyanStringAppendEx(0, &view, x, x); break;
    case 5: st = ZyanStringAppendEx(&s, 0, x, x); break;
    case 6: st = ZyanStringInsert(0, x, &view); break;
    case 7: st = ZyanStringInsert(&s, x, 0); break;
    case 8: st = ZyanStringInsertEx(0, x, &view, x, x); break;
    case 9: st = ZyanStringInsertEx(&s, x, 0, x, x); break;
    case 10: st = ZyanStringDelete(0, x, x); break;
    case 11: st = ZyanStringTruncate(0, x); break;
    case 12: st = ZyanStringClear(0); break;
    case 13: st = ZyanStringResize(0, x); break;
    case 14: st = ZyanStringReserve(0, x); break;
    case 15: st = ZyanStringShrinkToFit(0); break;
    case 16: st = ZyanStringSetChar(0, x, 'x'); break;
    case 17: st = ZyanStringGetCharMutable(0, x, &pc); break;
    case 18: st = ZyanStringGetChar(0, x, &ch); break;
    case 19: st = ZyanStringToLowerCaseEx(0, x, x); break;
    case 20: st = ZyanStringToUpperCaseEx(0, x, x); break;
    case 21: st = ZyanStringToLowerCase(0); break;
    case 22: st = ZyanStringGetSize(0, &sz); break;
    case 23: st = ZyanStringGetCapacity(0, &sz); break;
    case 24: st = ZyanStringGetData(0, &cp); break;
    case 25: st = ZyanStringDuplicateEx(&d, 0, x, &vh_allocator, 2, 4); break;
    case 26: st = ZyanStringInitEx(0, 5, &vh_allocator, 2, 4); break;
    case 27: st = ZyanStringLPosEx(0, &view, &fi, x, x); break;
    case 28: st = ZyanStringRPosEx(&view, 0, &fi, x, x); break;
    default: st = ZyanStringCompare(&view, 0, &r); break;
    }
    VP(S02, st == ZYAN_STATUS_INVALID_ARGUMENT, "a missing argument is refused");
    unchanged();
    VH_WITNESS("null");
    finish();
}
