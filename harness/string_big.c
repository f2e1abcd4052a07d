/* Strings of up to MAX characters: the machinery of vector_big.c above String.c.  The terminator is either
 * the old one, moved along, or a zero that was written there. */
#undef ES
#define ES 1
#include "vector_big.c"
#include <Zycore/String.h>
#ifndef APP
#define APP 0
#endif
static ZyanString s; static ZyanStringView view; static u64 m;
static void sset(void)
{
    setup();
    VH_ASSUME(n0 < c0);
    m = srcn;
    s.flags = CUSTOM ? ZYAN_STRING_HAS_FIXED_CAPACITY : 0;
    s.vector = v; s.vector.size = n0 + 1;
    view.string.vector.data = srcp; view.string.vector.size = m + 1;
#ifndef VH_SOLVER
    oldp[n0] = 0;
#endif
}
#define VS(c, t) do { VP(S01, c, t); VP(S02, c, t); } while (0)
static void one(u64 x)
{
    int which; u64 off;
    want(x, &which, &off);
    VS(comes_from(x, which, off), "every character is the one the edit leaves");
}
static void schk(u64 len)
{
    u64 g = 0;
    VS(s.vector.size == len + 1, "length after the edit");
    VP(S01, ZyanStringGetSize(&s, &g) == ZYAN_STATUS_SUCCESS && g == len, "GetSize reports the length");
    VS(s.vector.size <= s.vector.capacity, "the size is within the capacity");
    if (CUSTOM) { VS(s.vector.data == d0 && s.vector.capacity == c0 && nre == 0, "a fixed buffer is kept"); }
    else { VS(!odd && s.vector.data == cur && s.vector.capacity == granted, "storage and capacity are what the allocator granted"); }
    if (s.vector.size != len + 1 || s.vector.data != cur || s.vector.capacity > granted || len >= granted) { return; }
    v = s.vector;
#ifdef VH_SOLVER
    if (q < len) { one(q); }
    VS(((u8*)v.data)[len] == 0 || comes_from(len, OLD, n0), "the text is terminated");
#else
    for (u64 x = 0; x < len; ++x) { one(x); }
    VS(((u8*)v.data)[len] == 0, "the text is terminated");
    for (u64 x = 0; x < srcn; ++x) { VS(srcp[x] == pat(SRC, x), "the source is unchanged"); }
#endif
}
static void skept(void)
{
    want = w_same; schk(n0);
    VS(s.vector.data == d0 && s.vector.capacity == c0, "a refused edit keeps the storage");
}
static int full(u64 need) { return need + 1 > c0 && (CUSTOM || nrefused); }
static void sroom(ZyanStatus st)
{
    VS(st == (CUSTOM ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY), "the lack of room is reported");
    skept();
}
static u64 p_si;
static void w_sins(u64 x, int* which, u64* off)
{
    *which = x < p_idx ? OLD : x < p_idx + p_cnt ? SRC : OLD;
    *off = x < p_idx ? x : x < p_idx + p_cnt ? x - p_idx + p_si : x - p_cnt;
}
void h_big_sinsert(void)
{
    sset();
    int mode = APP ? (int)nd_below(2) : 2 + (int)nd_below(2);
    u64 idx = nd_u64(), si = nd_u64(), c = nd_u64();
    ZyanStatus st;
    if (mode == 0) { si = 0; c = m; idx = n0; st = ZyanStringAppend(&s, &view); }
    else if (mode == 1) { idx = n0; st = ZyanStringAppendEx(&s, &view, si, c); }
    else if (mode == 2) { si = 0; c = m; st = ZyanStringInsert(&s, idx, &view); }
    else { st = ZyanStringInsertEx(&s, idx, &view, si, c); }
    if (idx > n0 + 1 || si > m || c > m - si)
    {
        VP(S02, st == ZYAN_STATUS_OUT_OF_RANGE, "a position or range outside the text is out of range");
        skept();
        return;
    }
    if (idx == n0 + 1) { return; }           /* decided by the small configurations */
    if (full(n0 + c)) { sroom(st); return; }
    if (nrefused || (c == 0 && !ZYAN_SUCCESS(st))) { if (!ZYAN_SUCCESS(st)) { skept(); return; } }
    VS(st == ZYAN_STATUS_SUCCESS, "a legal edit succeeds");
    p_idx = idx; p_si = si; p_cnt = c;
    want = w_sins; schk(n0 + c);
#if !APP
    VH_WITNESS_IF(mode == 3 && idx == 70000 && c == 300 && si == 5 && n0 > 90000, "long insertion");
#else
    VH_WITNESS_IF(mode == 1 && n0 == 300 && c == 70000, "long append");
#endif
}
void h_big_sremove(void)
{
    sset();
    int mode = (int)nd_below(4);
    u64 idx = nd_u64(), c = nd_u64(), n = nd_range(0, MAX);
    ZyanStatus st;
    want = w_same;
    if (mode == 0) { st = ZyanStringDelete(&s, idx, c); }
    else if (mode == 1) { st = ZyanStringTruncate(&s, idx); c = n0 - idx; }
    else if (mode == 2) { idx = 0; c = n0; st = ZyanStringClear(&s); }
    else
    {
        st = ZyanStringResize(&s, n);
        if (full(n)) { sroom(st); return; }
        if (!ZYAN_SUCCESS(st)) { VS(nrefused, "a legal edit succeeds"); skept(); return; }
        schk(n);
        VH_WITNESS_IF(n == 70000 && n0 == 90000, "long resize");
        return;
    }
    if (idx > n0 || c > n0 - idx)
    {
        VP(S02, st == ZYAN_STATUS_OUT_OF_RANGE, "a range outside the text is out of range");
        skept();
        return;
    }
    if (!ZYAN_SUCCESS(st) && s.vector.size == n0 + 1)
    {
        VS(nrefused || c == 0, "a legal edit succeeds");
        skept();
        return;
    }
    VS(ZYAN_SUCCESS(st) || nrefused, "a legal edit succeeds");
    p_idx = idx; p_cnt = c;
    want = w_delete; schk(n0 - c);
    VH_WITNESS_IF(mode == 0 && idx == 300 && c == 70000 && n0 > 90000, "long deletion");
    VH_WITNESS_IF(mode == 1 && idx == 70000 && n0 > 90000, "long truncation");
}
