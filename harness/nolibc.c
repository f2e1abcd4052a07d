/* The replacements of <Zycore/LibC.h> for environments without libc (compiled with ZYAN_NO_LIBC), on
 * exactly-sized blocks, against byte-loop references of the C standard. */
#include "vh.h"
#ifndef ZYAN_NO_LIBC
#error profile "nolibc" expected
#endif
#include <Zycore/LibC.h>
#ifndef N
#define N 5                              /* bytes of a block; strings have up to N-1 characters */
#endif
typedef struct { u8* blk; char* s; u8 c[N + 1]; u64 len; } sym;   /* a string ending at the end of its block */
static void mk(sym* x)
{
    x->blk = vh_block(N);
    x->len = nd_below(N);
    x->s = (char*)x->blk + (N - 1 - x->len);
    for (unsigned i = 0; i < N; ++i)
    {
        u8 v = nd_u8();
        if (i == N - 1) { v = 0; }
        else { VH_ASSUME(v != 0 || i < N - 1 - x->len); }
        x->blk[i] = v;
    }
    for (unsigned i = 0; i <= N; ++i) { x->c[i] = i < x->len ? x->blk[N - 1 - x->len + i] : 0; }
}
static int sign(i64 v) { return v < 0 ? -1 : v > 0; }
static int same(sym* x)                  /* nothing in the block has changed */
{
    int ok = 1;
    for (unsigned i = 0; i < N; ++i) { if (i + 1 + x->len >= N && x->blk[i] != x->c[i - (N - 1 - x->len)]) { ok = 0; } }
    return ok;
}
static int has(sym* x, u8 c) { int r = 0; for (unsigned i = 0; i < N; ++i) { if (i < x->len && x->c[i] == c) { r = 1; } } return r; }

void h_nl_len(void)
{
    static sym a;
    mk(&a);
    int c = (int)nd_u32();
    u64 first = N, last = N;
    for (unsigned i = 0; i < N; ++i) { if (i <= a.len && a.c[i] == (u8)c) { if (first == N) { first = i; } last = i; } }
    VP(N01, ZYAN_STRLEN(a.s) == a.len, "strlen");
    char* p = ZYAN_STRCHR(a.s, c);
    VP(N01, first == N ? p == 0 : p == a.s + first, "strchr");
    p = ZYAN_STRRCHR(a.s, c);
    VP(N01, last == N ? p == 0 : p == a.s + last, "strrchr");
    VP(N01, same(&a), "searching changes nothing");
    VH_WITNESS_IF(p == a.s + 3 && (u8)c && first < last, "found twice");
    VH_WITNESS_IF(a.len && (u8)c == 0 && p, "terminator found");
}
void h_nl_cmp(void)
{
    static sym a, b;
    mk(&a); mk(&b);
    u64 n = nd_u64();
    int w = 0, wn = 0;
    for (unsigned i = 0; i < N; ++i)
    {
        if (!w) { w = sign((int)a.c[i] - (int)b.c[i]); }
        if (!wn && i < n) { wn = sign((int)a.c[i] - (int)b.c[i]); }
    }
    int r = ZYAN_STRCMP(a.s, b.s);
    VP(N01, sign(r) == w, "strcmp");
    r = ZYAN_STRNCMP(a.s, b.s, n);
    VP(N01, sign(r) == wn, "strncmp");
    r = ZYAN_STRCOLL(a.s, b.s);
    VP(N01, sign(r) == w, "strcoll");
    VP(N01, same(&a) && same(&b), "comparing changes nothing");
    VH_WITNESS_IF(w < 0 && a.len == 2 && b.len == 3 && wn == 0 && n == 2, "prefix");
    VH_WITNESS_IF(w == 0 && a.len == 3 && n > 100, "equal");
}
void h_nl_strncmp_cut(void)               /* no terminator within the first n bytes */
{
    u8* a = vh_block(N); u8* b = vh_block(N);
    u64 n = nd_below(N + 1);
    int w = 0;
    u8* p = a + (N - n); u8* q = b + (N - n);
    for (unsigned i = 0; i < N; ++i) { a[i] = nd_u8(); b[i] = nd_u8(); VH_ASSUME(a[i] && b[i]); }
    for (unsigned i = 0; i < N; ++i) { if (i >= N - n && !w) { w = sign((int)a[i] - (int)b[i]); } }
    int r = ZYAN_STRNCMP((char*)p, (char*)q, n);
    VP(N01, sign(r) == w, "strncmp of unterminated buffers");
    VH_WITNESS_IF(n == N && w == 0, "equal");
}
void h_nl_span(void)
{
    static sym a, b;
    mk(&a); mk(&b);
    u64 in = 0, out = 0; int go = 1, go2 = 1;
    for (unsigned i = 0; i < N; ++i)
    {
        if (i < a.len)
        {
            int h = has(&b, a.c[i]);
            if (go && h) { ++in; } else { go = 0; }
            if (go2 && !h) { ++out; } else { go2 = 0; }
        }
    }
    VP(N01, ZYAN_STRSPN(a.s, b.s) == in, "strspn");
    VP(N01, ZYAN_STRCSPN(a.s, b.s) == out, "strcspn");
    char* p = ZYAN_STRPBRK(a.s, b.s);
    VP(N01, out == a.len ? p == 0 : p == a.s + out, "strpbrk");
    VP(N01, same(&a) && same(&b), "scanning changes nothing");
    VH_WITNESS_IF(in == 2 && a.len == 3, "span");
    VH_WITNESS_IF(out == 2 && a.len == 3, "break");
}
void h_nl_str(void)
{
    static sym a, b;
    mk(&a); mk(&b);
    u64 at = N;
    for (unsigned i = 0; i < N; ++i)
    {
        int ok = i + b.len <= a.len;
        for (unsigned j = 0; j < N; ++j) { if (ok && j < b.len && a.c[(i + j) <= N ? i + j : N] != b.c[j]) { ok = 0; } }
        if (ok && at == N) { at = i; }
    }
    char* p = ZYAN_STRSTR(a.s, b.s);
    VP(N01, at == N ? p == 0 : p == a.s + at, "strstr");
    VP(N01, same(&a) && same(&b), "searching changes nothing");
    VH_WITNESS_IF(at == 2 && b.len == 2, "found late");
    VH_WITNESS_IF(b.len == 0 && p == a.s, "empty needle");
}
/* destination of exactly `need` bytes, behind a guard that must stay */
static u8* dst; static u8* dblk; static u8 dold[2 * N + 1]; static u64 doff;
static void mkdst(u64 need)
{
    dblk = vh_block(2 * N);
    doff = 2 * N - need;
    dst = dblk + doff;
    for (unsigned i = 0; i < 2 * N; ++i) { dblk[i] = nd_u8(); dold[i] = dblk[i]; }
}
static int kept(void) { int ok = 1; for (unsigned i = 0; i < 2 * N; ++i) { if (i < doff && dblk[i] != dold[i]) { ok = 0; } } return ok; }
void h_nl_cpy(void)
{
    static sym a;
    mk(&a);
    mkdst(a.len + 1);
    char* r = ZYAN_STRCPY((char*)dst, a.s);
    int ok = 1;
    for (unsigned i = 0; i < N; ++i) { if (i <= a.len && dst[i] != a.c[i]) { ok = 0; } }
    VP(N01, r == (char*)dst && ok && kept() && same(&a), "strcpy");
    u64 n = nd_below(2 * N + 1);
    mkdst(n);
    r = ZYAN_STRNCPY((char*)dst, a.s, n);
    ok = 1;
    for (unsigned i = 0; i < 2 * N; ++i) { if (i < n && dst[i] != (i < a.len ? a.c[i < N ? i : N] : 0)) { ok = 0; } }
    VP(N01, r == (char*)dst && ok && kept() && same(&a), "strncpy");
    VH_WITNESS_IF(n == 2 * N && a.len == 2, "padded");
    VH_WITNESS_IF(n == 2 && a.len == 4, "cut");
}
void h_nl_xfrm(void)
{
    static sym a, b;
    mk(&a); mk(&b);
    u64 n = nd_below(2 * N + 1);
    mkdst(n);
    u64 l = ZYAN_STRXFRM(n ? (char*)dst : (char*)0, a.s, n);
    VP(N01, kept() && same(&a), "strxfrm writes nothing outside the destination");
    if (l < n)
    {
        /* the transformed strings must compare like the strings themselves */
        static u8 t1[2 * N + 1], t2[2 * N + 1]; int ok = 0, w = 0;
        for (unsigned i = 0; i < 2 * N; ++i) { if (i <= l) { t1[i] = dst[i]; } if (i < l && !dst[i]) { ok = 1; } }
        VP(N01, !ok && t1[l] == 0, "strxfrm returns the length of its result");
        u8* d2 = vh_block(2 * N);
        u64 m = ZYAN_STRXFRM((char*)d2, b.s, 2 * N);
        VP(N01, m < 2 * N && d2[m < 2 * N ? m : 0] == 0, "strxfrm of a short string");
        for (unsigned i = 0; i < 2 * N; ++i) { t2[i] = i < m ? d2[i] : 0; if (i > l) { t1[i] = 0; } if (!w) { w = sign((int)t1[i] - (int)t2[i]); } }
        int v = 0;
        for (unsigned i = 0; i < N; ++i) { if (!v) { v = sign((int)a.c[i] - (int)b.c[i]); } }
        VP(N01, w == v, "transformed strings compare like the strings");
        VH_WITNESS_IF(w && a.len == 3 && b.len == 3, "different");
    }
}
void h_nl_cat(void)
{
    static sym a, b;
    mk(&a); mk(&b);
    u64 n = nd_u64(), add = 0;
    int bounded = nd_bool();
    for (unsigned i = 0; i < N; ++i) { if (i < b.len && (!bounded || i < n)) { add = i + 1; } }
    mkdst(a.len + add + 1);
    for (unsigned i = 0; i < N; ++i) { if (i <= a.len) { dst[i] = a.c[i]; } }
    char* r = bounded ? ZYAN_STRNCAT((char*)dst, b.s, n) : ZYAN_STRCAT((char*)dst, b.s);
    int ok = 1;
    for (unsigned i = 0; i < 2 * N; ++i)
    {
        if (i < a.len && dst[i] != a.c[i < N ? i : N]) { ok = 0; }
        if (i >= a.len && i < a.len + add && dst[i] != b.c[(i - a.len) < N ? i - a.len : N]) { ok = 0; }
        if (i == a.len + add && dst[i]) { ok = 0; }
    }
    VP(N01, r == (char*)dst && ok && kept() && same(&b), "strcat and strncat");
    VH_WITNESS_IF(bounded && n == 2 && b.len == 4 && a.len == 2, "cut");
    VH_WITNESS_IF(!bounded && b.len == 3 && a.len == 3, "appended");
}
void h_nl_mem(void)
{
    u8* a = vh_block(N); u8* b = vh_block(N);
    u8 ca[N + 1];
    u64 n = nd_below(N + 1), m = nd_below(N + 1), at = N; int w = 0;
    int c = (int)nd_u32();
    u8* p = a + (N - n); u8* q = b + (N - n);
    for (unsigned i = 0; i < N; ++i) { a[i] = nd_u8(); b[i] = nd_u8(); ca[i] = a[i]; }
    for (unsigned i = 0; i < N; ++i)
    {
        if (i >= N - n)
        {
            if (at == N && a[i] == (u8)c) { at = i; }
            if (!w) { w = sign((int)a[i] - (int)b[i]); }
        }
    }
    u8* f = ZYAN_MEMCHR(p, c, n);
    VP(N01, at == N ? f == 0 : f == a + at, "memchr");
    int r = ZYAN_MEMCMP(p, q, n);
    VP(N01, sign(r) == w, "memcmp");
    f = ZYAN_MEMSET(p, c, n);
    int ok = 1;
    for (unsigned i = 0; i < N; ++i) { if (a[i] != (i >= N - n ? (u8)c : ca[i])) { ok = 0; } }
    VP(N01, f == p && ok, "memset");
    u8* d = vh_block(N);
    for (unsigned i = 0; i < N; ++i) { d[i] = ca[i]; }
    f = ZYAN_MEMCPY(d + (N - m), b + (N - m), m);
    ok = 1;
    for (unsigned i = 0; i < N; ++i) { if (d[i] != (i >= N - m ? b[i] : ca[i])) { ok = 0; } }
    VP(N01, f == d + (N - m) && ok, "memcpy");
    VH_WITNESS_IF(n == 3 && m == N && at == N - 1, "memory");
    VH_WITNESS_IF(n == 0 && m == 0, "nothing");
}
void h_nl_move(void)
{
    u8* a = vh_block(N + 2); u8 o[N + 3];
    u64 from = nd_below(N + 3), to = nd_below(N + 3), n = nd_below(N + 3);
    VH_ASSUME(from + n <= N + 2 && to + n <= N + 2);
    for (unsigned i = 0; i < N + 2; ++i) { a[i] = nd_u8(); o[i] = a[i]; }
    u8* f = ZYAN_MEMMOVE(a + to, a + from, n);
    int ok = f == a + to;
    for (unsigned i = 0; i < N + 2; ++i) { if (a[i] != (i >= to && i < to + n ? o[i - to + from <= N + 2 ? i - to + from : 0] : o[i])) { ok = 0; } }
    VP(N01, ok, "memmove, overlapping or not");
    VH_WITNESS_IF(n == 4 && from + 1 == to, "up");
    VH_WITNESS_IF(n == 4 && from == to + 1, "down");
}
void h_nl_tok(void)
{
    static sym a, b[3]; u8 txt[N + 1]; u64 pos = 0; int done = 0;
    mk(&a);
    for (unsigned i = 0; i <= N; ++i) { txt[i] = a.c[i]; }
    for (unsigned k = 0; k < 3; ++k)
    {
        mk(&b[k]);
        /* reference: skip delimiters, take up to the next one */
        u64 beg = N, end = N;
        for (unsigned i = 0; i < N; ++i)
        {
            if (!done && i >= pos && i < a.len)
            {
                if (beg == N && !has(&b[k], txt[i])) { beg = i; }
                if (beg != N && end == N && has(&b[k], txt[i])) { end = i; }
            }
        }
        if (beg != N && end == N) { end = a.len; }
        char* t = ZYAN_STRTOK(k ? (char*)0 : a.s, b[k].s);
        VP(N01, beg == N ? t == 0 : t == a.s + beg, "strtok finds the next token");
        if (beg != N)
        {
            VP(N01, a.s[end] == 0, "strtok terminates the token");
            pos = end + 1;
            if (end >= a.len) { done = 1; }
        } else { done = 1; }
        VP(N01, same(&b[k]), "strtok leaves the delimiters alone");
        VH_WITNESS_IF(k == 1 && beg == 2, "second token");
        VH_WITNESS_IF(k == 2 && done, "no more tokens");
    }
    for (unsigned i = 0; i < N; ++i) { int z = i < a.len && (u8)a.s[i < a.len ? i : 0] != txt[i] && a.s[i < a.len ? i : 0] != 0; VP(N01, !z, "strtok writes nothing but terminators"); }
}
