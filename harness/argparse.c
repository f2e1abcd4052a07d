/* Command line parsing: every command line of NT tokens of up to TL characters against every pair of
 * well-formed definitions of the given kinds (name length K0, K1: 2 short, 3 or more long; 0: none),
 * any flags, any limits, an allocator failing at any call; compared with a reference parser. */
#include "vh.h"
#include <Zycore/ArgParse.h>
#ifndef NT
#define NT 2
#endif
#ifndef TL
#define TL 3
#endif
#ifndef K0
#define K0 2
#endif
#ifndef K1
#define K1 3
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef NOARGS
#define NOARGS 0
#endif
#ifndef DFLT
#define DFLT 0
#endif
#ifndef K2
#define K2 0
#endif
#define ND ((K0 != 0) + (K1 != 0) + (K2 != 0))
#define MD (K2 ? 3 : 2)
#define MAXE (NT * (TL - 1) + (TL < 2))     /* entries a command line can produce */

/* --------------------------------------------------------------- strings with a known end */
static const char* sbeg[NT + 1]; static unsigned slen[NT + 1]; static char nbuf[3][8];
static const char* dbeg[MD]; static unsigned dlen[MD];
#ifdef VH_SOLVER
#undef strlen
#undef memset
size_t vh_arg_strlen(const char* s)
{
    for (unsigned i = 0; i <= NT; ++i)
    {
        if (sbeg[i] && __CPROVER_same_object(s, sbeg[i]))
        {
            size_t o = (size_t)(s - sbeg[i]);
            __CPROVER_assert(o <= slen[i], "strlen: pointer inside the string");
            return slen[i] - o;
        }
    }
    for (unsigned i = 0; i < MD; ++i)
    {
        if (dbeg[i] && __CPROVER_same_object(s, dbeg[i]))
        {
            size_t o = (size_t)(s - dbeg[i]);
            __CPROVER_assert(o <= dlen[i], "strlen: pointer inside the string");
            return dlen[i] - o;
        }
    }
    return strlen(s);
}
void* vh_arg_memset(void* p, int c, size_t n)
{
    static const ZyanArgParseArg zero;
    if (c == 0 && n == sizeof(ZyanArgParseArg)) { *(ZyanArgParseArg*)p = zero; return p; }
    return memset(p, c, n);
}
#endif
#ifdef VH_SOLVER
#undef strcmp
int vh_arg_strcmp(const char* a, const char* b)
{
    size_t n = vh_arg_strlen(a), m = vh_arg_strlen(b);
    for (unsigned j = 0; j < TL; ++j)
    {
        if (j < n && j < m && a[j] != b[j]) { return (u8)a[j] < (u8)b[j] ? -1 : 1; }
    }
    __CPROVER_assert(n <= TL || m <= TL, "BOUND: strcmp");
    return n == m ? 0 : n < m ? -1 : 1;
}
#endif
static char* str(unsigned len)
{
    char* s = vh_block(len + 1);
    s[len] = 0;
    return s;
}

/* --------------------------------------------------------------- allocator */
static unsigned ncalls, nlive, nfailed; static u64 failmask; static void* cur; static u64 curn; static int odd;
static void* fresh(u64 n)
{
#ifdef VH_SOLVER
    __CPROVER_assert(n <= 2 * MAXE + 2, "BOUND: result vector");
    static u8 pool;                     /* the entries are in E */
    return &pool;
#else
    return vh_block(n * sizeof(ZyanArgParseArg));
#endif
}
static ZyanStatus al(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    if ((failmask >> (ncalls++ & 63)) & 1) { ++nfailed; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    if (es != sizeof(ZyanArgParseArg) || nlive) { odd = 1; return ZYAN_STATUS_FAILED; }
    ++nlive; cur = fresh(n); curn = n; *p = cur;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus re(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    if ((failmask >> (ncalls++ & 63)) & 1) { ++nfailed; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    if (es != sizeof(ZyanArgParseArg) || !nlive || *p != cur) { odd = 1; return ZYAN_STATUS_FAILED; }
#ifdef VH_SOLVER
    __CPROVER_assert(n <= 2 * MAXE + 2, "BOUND: result vector");
    curn = n;                           /* in place; the replay moves */
#else
    ZyanArgParseArg* o = cur; ZyanArgParseArg* q = fresh(n);
    for (u64 i = 0; i < 2 * MAXE + 2; ++i) { if (i < curn && i < n) { q[i] = o[i]; } }
    free(cur);
    cur = q; curn = n; *p = q;
#endif
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus de(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n)
{
    if (es != sizeof(ZyanArgParseArg) || !nlive || p != cur || n != curn) { odd = 1; return ZYAN_STATUS_FAILED; }
#ifndef VH_SOLVER
    free(cur);
#endif
    --nlive;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanAllocator A = { al, re, de };
#ifdef VH_SOLVER
static ZyanArgParseArg E0, E1, E2, E3, E4, E5, E6, E7;
static ZyanArgParseArg* at(u64 i)
{
    return i == 0 ? &E0 : i == 1 ? &E1 : i == 2 ? &E2 : i == 3 ? &E3 : i == 4 ? &E4 : i == 5 ? &E5 : i == 6 ? &E6 : &E7;
}
void* vh_arg_get(const ZyanVector* v, ZyanUSize i)
{
    return v && i < v->size ? at(i) : 0;
}
ZyanStatus vh_arg_getp(const ZyanVector* v, ZyanUSize i, void** p)
{
    if (!v || !p) { return ZYAN_STATUS_INVALID_ARGUMENT; }
    if (i >= v->size) { return ZYAN_STATUS_OUT_OF_RANGE; }
    *p = at(i);
    return ZYAN_STATUS_SUCCESS;
}
ZyanStatus vh_arg_emplace(ZyanVector* v, void** element, ZyanMemberFunction ctor)
{
    __CPROVER_assert(v && element && !ctor && v->element_size == sizeof(ZyanArgParseArg) && (DFLT || (v->allocator == &A && v->data == cur)) && v->size <= v->capacity, "contract of ZyanVectorEmplace: arguments");
    if (v->size == v->capacity)
    {
        u64 c = (v->size + 1) * v->growth_factor;
        ZyanStatus st = re(&A, &v->data, v->element_size, c);
        if (!ZYAN_SUCCESS(st)) { return st; }
        v->capacity = c;
    }
    __CPROVER_assert(v->size < MAXE && MAXE <= 8, "BOUND: entries"); __CPROVER_assume(v->size < MAXE);
    *element = at(v->size);
    ++v->size;
    return ZYAN_STATUS_SUCCESS;
}
ZyanStatus vh_arg_push(ZyanVector* v, const void* element)
{
    ZyanArgParseArg* p;
    __CPROVER_assert(element != 0, "contract of ZyanVectorPushBack: arguments");
    ZyanStatus st = vh_arg_emplace(v, (void**)&p, ZYAN_NULL);
    if (ZYAN_SUCCESS(st)) { *p = *(const ZyanArgParseArg*)element; }
    return st;
}
#else
#define vh_arg_get ZyanVectorGet
#endif

/* --------------------------------------------------------------- the reference */
typedef struct { int def, has; const char* val; unsigned len; } ent;
static ent X[MAXE]; static unsigned xn;
static ZyanArgParseDefinition defs[MD + 1]; static char* tok[NT + 1]; static const char* argv[NT + 1]; static u64 mn, mx;
static ZyanStatus want; static const char* wtok; static int anyway;

static int named(const char* s, unsigned len)          /* index of the first definition with that name */
{
    for (unsigned d = 0; d < ND; ++d)
    {
        int eq = dlen[d] == len;
        for (unsigned j = 0; j < TL; ++j) { if (eq && j < len && defs[d].name[j] != s[j]) { eq = 0; } }
        if (eq) { return (int)d; }
    }
    return -1;
}
static int lettered(char c)
{
    for (unsigned d = 0; d < ND; ++d) { if (dlen[d] == 2 && defs[d].name[1] == c) { return (int)d; } }
    return -1;
}
static void entry(int d, int has, const char* v, unsigned len)
{
    X[xn].def = d; X[xn].has = has; X[xn].val = v; X[xn].len = len; ++xn;
}
static void stop(ZyanStatus st, const char* t) { if (want == ZYAN_STATUS_SUCCESS) { want = st; wtok = t; } }
static void reference(void)
{
    int ended = 0, skip = 0; u64 unnamed = 0;
    want = ZYAN_STATUS_SUCCESS; wtok = 0; xn = 0;
    if (mn > mx) { want = ZYAN_STATUS_INVALID_ARGUMENT; return; }
    for (unsigned i = 1; i <= NT; ++i)
    {
        const char* t = tok[i]; unsigned len = slen[i];
        if (want != ZYAN_STATUS_SUCCESS) { return; }
        if (skip) { skip = 0; continue; }
        int dash = !ended && len >= 2 && t[0] == '-';
        if (dash && t[1] == '-')
        {
            if (len == 2) { ended = 1; continue; }
            int d = named(t, len);
            if (d < 0) { stop(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, t); }
            else if (defs[d].boolean) { entry(d, 0, 0, 0); }
            else if (i == NT) { stop(ZYAN_STATUS_ARG_MISSES_VALUE, t); }
            else { entry(d, 1, tok[i < NT ? i + 1 : i], slen[i < NT ? i + 1 : i]); skip = 1; }
        } else if (dash)
        {
            int more = 1;
            for (unsigned j = 1; j < TL; ++j)
            {
                if (more && j < len)
                {
                    int d = lettered(t[j]);
                    if (d < 0) { stop(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, t); more = 0; }
                    else if (defs[d].boolean) { entry(d, 0, 0, 0); }
                    else
                    {
                        more = 0;
                        if (j + 1 < len) { entry(d, 1, t + j + 1, len - j - 1); }
                        else if (i == NT) { stop(ZYAN_STATUS_ARG_MISSES_VALUE, t); }
                        else { entry(d, 1, tok[i < NT ? i + 1 : i], slen[i < NT ? i + 1 : i]); skip = 1; }
                    }
                }
            }
        } else if (unnamed >= mx) { stop(ZYAN_STATUS_TOO_MANY_ARGS, t); }
        else { ++unnamed; entry(-1, 1, t, len); }
    }
    if (want != ZYAN_STATUS_SUCCESS) { return; }
    if (unnamed < mn) { stop(ZYAN_STATUS_TOO_FEW_ARGS, 0); anyway = 1; return; }
    for (unsigned d = 0; d < ND; ++d)
    {
        int found = !defs[d].required;
        for (unsigned k = 0; k < MAXE; ++k) { if (k < xn && X[k].def == (int)d) { found = 1; } }
        if (!found) { stop(ZYAN_STATUS_REQUIRED_ARG_MISSING, defs[d].name); return; }
    }
}

static ZyanVector out; static const char* err; static const char sentinel[] = "?";
static void run(void)
{
    ZyanArgParseConfig cfg;
    for (unsigned i = 1; i <= NT; ++i)
    {
        for (unsigned j = 0; j < TL; ++j)
        {
            char c = (char)nd_range(1, 255);
#ifdef PRE
            if (i == 1) { c = PRE[j < sizeof(PRE) ? j : 0]; }
#endif
            if (j < slen[i]) { tok[i][j] = c; }
        }
    }
    for (unsigned d = 0; d < MD; ++d)
    {
        u8 b = nd_u8() & 1, r = nd_u8() & 1;
        for (unsigned j = 1; j < TL; ++j)
        {
            char c = (char)nd_range(1, 255);
            if (d < ND && j < dlen[d])
            {
                if (dlen[d] == 2) { VH_ASSUME(c != '-'); } else if (j == 1) { c = '-'; }
                ((char*)defs[d].name)[j] = c;
            }
        }
        if (d < ND) { defs[d].boolean = b; defs[d].required = r; }
    }
    mn = nd_u64(); mx = nd_u64();
    u64 f = nd_u64();
    failmask = FAIL ? f & 7 : 0;
    int with = nd_bool();
    ncalls = nlive = nfailed = 0; odd = 0; anyway = 0;
    cfg.argv = argv; cfg.argc = NT + 1; cfg.min_unnamed_args = mn; cfg.max_unnamed_args = mx;
    cfg.args = NOARGS ? ZYAN_NULL : defs;
    err = sentinel;
#if DFLT
    ZyanStatus st = ZyanArgParse(&cfg, &out, with ? &err : ZYAN_NULL);
    nlive = ZYAN_SUCCESS(st); cur = out.data; curn = out.capacity;
    if (ZYAN_SUCCESS(st)) { VP(P03, out.allocator == ZyanAllocatorDefault(), "the default allocator is used"); }
#else
    ZyanStatus st = ZyanArgParseEx(&cfg, &out, with ? &err : ZYAN_NULL, &A);
#endif
    VP(P03, !odd, "the allocator gets back what it handed out");
    if (nfailed)
    {
        VP(P03, !ZYAN_SUCCESS(st), "a failed allocation is reported");
        VP(P03, nlive == 0, "nothing is left allocated after a failure");
#if FAIL
        VH_WITNESS_IF(ncalls == 1, "first allocation fails");
#endif
        return;
    }
    reference();
    VP(P02, st == want, "the status is the one the grammar prescribes");
    VP(P01, ZYAN_SUCCESS(st) == (want == ZYAN_STATUS_SUCCESS), "exactly the command lines of the grammar are accepted");
    VP(P03, nlive == (ZYAN_SUCCESS(st) ? 1u : 0u), "nothing is left allocated after a failure, and only the result otherwise");
    if (!ZYAN_SUCCESS(st))
    {
        if (with && wtok) { VP(P02, err == wtok, "the error token is the offending argument"); }
        VH_WITNESS_IF(st == ZYAN_STATUS_TOO_MANY_ARGS, "too many");
#if NT && ND
        VH_WITNESS_IF(st == ZYAN_STATUS_REQUIRED_ARG_MISSING && xn, "required argument missing");
#endif
        return;
    }
    if (want != ZYAN_STATUS_SUCCESS) { return; }
    u64 n = 99;
    ZyanVectorGetSize(&out, &n);
    VP(P01, n == xn, "the result has one entry for each argument");
    VP(P01, out.element_size == sizeof(ZyanArgParseArg), "the entries are arguments");
    for (unsigned k = 0; k < MAXE; ++k)
    {
        if (k < xn && n == xn)
        {
            const ZyanArgParseArg* a = vh_arg_get(&out, k);
            VP(P01, a->def == (X[k].def < 0 ? (const ZyanArgParseDefinition*)0 : &defs[X[k].def]), "each entry has the right definition");
            VP(P01, (a->has_value != 0) == X[k].has, "each entry has a value exactly if the argument has one");
            if (X[k].has && a->has_value)
            {
                VP(P01, a->value.string.vector.size == (u64)X[k].len + 1 && a->value.string.vector.data == (void*)X[k].val, "each value is the argument's text");
            }
        }
    }
#if NT
    VH_WITNESS_IF(xn >= NT - 1, "accepted");
#endif
    ZyanStatus s2 = ZyanVectorDestroy(&out);
    if (DFLT) { nlive = 0; }
    VP(P03, ZYAN_SUCCESS(s2) && nlive == 0 && !odd, "the result can be destroyed");
}
static void setup(void)
{
    static const unsigned kinds[3] = { K0, K1, K2 };
    static char prog[2] = "p";
    argv[0] = tok[0] = prog; sbeg[0] = prog; slen[0] = 1;
    for (unsigned d = 0; d < MD; ++d) { dbeg[d] = 0; dlen[d] = 0; }
    for (unsigned d = 0; d < ND; ++d)
    {
        char* s = str(kinds[d]);
        s[0] = '-';
        defs[d].name = s; dbeg[d] = s; dlen[d] = kinds[d];
    }
    defs[ND].name = ZYAN_NULL;
}
void h_parse(void)
{
    unsigned total = 1;
    setup();
    for (unsigned i = 0; i < NT; ++i) { total *= TL + 1; }
    u64 sel = nd_below(total);
    for (unsigned c = 0; c < total; ++c)
    {
#ifdef ONLY
        if (c != ONLY) { continue; }
#endif
        if (sel == c)
        {
            unsigned x = c;
            for (unsigned i = 1; i <= NT; ++i) { slen[i] = x % (TL + 1); x /= TL + 1; tok[i] = str(slen[i]); sbeg[i] = argv[i] = tok[i]; }
            run();
            return;
        }
    }
}
/* Definitions of any name of up to TL characters, no tokens. */
static void defs_case(unsigned c)
{
    ZyanArgParseConfig cfg;
    static char prog[2] = "p"; static ZyanArgParseDefinition D[3];
    int bad = 0;
    sbeg[0] = prog; slen[0] = 1; argv[0] = prog;
    for (unsigned d = 0; d < 2; ++d)
    {
        unsigned len = d ? c / (TL + 1) : c % (TL + 1);
        char* s = str(len);
        for (unsigned j = 0; j < TL; ++j) { char x = (char)nd_range(1, 255); if (j < len) { s[j] = x; } }
        D[d].name = s; dbeg[d] = s; dlen[d] = len;
        D[d].boolean = nd_u8() & 1; D[d].required = nd_u8() & 1;
        if (len < 2) { bad = 1; }
        else if (s[0] != '-') { bad = 1; }
        else if (s[1] != '-' && len != 2) { bad = 1; }
        else { VH_ASSUME(len != 2 || s[1] != '-'); }
    }
    D[2].name = ZYAN_NULL;
    cfg.argv = argv; cfg.argc = (ZyanUSize)nd_below(2);
    cfg.min_unnamed_args = nd_u64(); cfg.max_unnamed_args = nd_u64();
    cfg.args = D;
    ncalls = nlive = nfailed = 0; odd = 0; failmask = 0;
    err = sentinel;
    ZyanStatus st = ZyanArgParseEx(&cfg, &out, &err, &A);
    if (bad || cfg.min_unnamed_args > cfg.max_unnamed_args)
    {
        VP(P02, st == ZYAN_STATUS_INVALID_ARGUMENT, "malformed definitions or limits are refused");
        VP(P01, !ZYAN_SUCCESS(st), "malformed definitions or limits are refused");
        VP(P03, nlive == 0, "nothing is left allocated after a failure");
        VH_WITNESS("malformed");
        return;
    }
    int few = cfg.min_unnamed_args > 0, miss = D[0].required || D[1].required;
    VP(P02, st == (few ? ZYAN_STATUS_TOO_FEW_ARGS : miss ? ZYAN_STATUS_REQUIRED_ARG_MISSING : ZYAN_STATUS_SUCCESS), "an empty command line is judged by limits and required arguments");
    if (!few && miss) { VP(P02, err == (D[0].required ? D[0].name : D[1].name), "the error token is the missing argument"); }
    VP(P03, nlive == (ZYAN_SUCCESS(st) ? 1u : 0u) && !odd, "only the result is allocated");
    if (ZYAN_SUCCESS(st))
    {
        u64 n = 99;
        ZyanVectorGetSize(&out, &n);
        VP(P01, n == 0, "no token, no argument");
        VH_WITNESS("empty command line");
    }
}
void h_defs(void)
{
    u64 sel = nd_below((TL + 1) * (TL + 1));
    for (unsigned c = 0; c < (TL + 1) * (TL + 1); ++c)
    {
        if (sel == c) { defs_case(c); return; }
    }
}
