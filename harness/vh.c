#include "vh.h"
#ifdef VH_SOLVER
unsigned vh_nd_count = 0;
static u64 draw(void)
{
    u64 v = nondet_vh_u64();
    return v;
}
#define LOG(v) do { __CPROVER_input("nd", vh_nd_count, (v)); ++vh_nd_count; } while (0)
u64 nd_u64(void) { u64 v = draw(); LOG(v); return v; }
u32 nd_u32(void) { u64 v = draw(); VH_ASSUME(v <= 0xFFFFFFFFu); LOG(v); return (u32)v; }
u16 nd_u16(void) { u64 v = draw(); VH_ASSUME(v <= 0xFFFFu); LOG(v); return (u16)v; }
u8  nd_u8(void)  { u64 v = (u8)draw(); LOG(v); return (u8)v; }
int nd_bool(void) { u64 v = draw() & 1; LOG(v); return (int)v; }
u64 nd_below(u64 b) { u64 v = draw(); VH_ASSUME(v < b); LOG(v); return v; }
u64 nd_range(u64 lo, u64 hi) { u64 v = draw(); VH_ASSUME(v >= lo && v <= hi); LOG(v); return v; }
void nd_bytes(void* p, size_t n) { for (size_t i = 0; i < n; ++i) { ((u8*)p)[i] = nd_u8(); } }
void* vh_block(size_t n) { void* p = malloc(n); __CPROVER_assume(p != 0); return p; }
#else
#include <unistd.h>
static int have[65536];
static u64 vals[65536]; static unsigned nvals, pos; static int loaded;
static void load(void)
{
    const char* fn = getenv("VH_INPUT");
    FILE* f = fn ? fopen(fn, "r") : NULL;
    unsigned idx; unsigned long long v;
    loaded = 1;
    if (!f) { return; }
    while (fscanf(f, "%u %llu", &idx, &v) == 2)
    {
        if (idx < 65536) { vals[idx] = v; have[idx] = 1; if (idx + 1 > nvals) { nvals = idx + 1; } }
    }
    fclose(f);
}
void vh_fail(const char* msg, const char* file, int line)
{
    fflush(stdout);
    fprintf(stderr, "PROPERTY VIOLATED: %s (%s:%d)\n", msg, file, line);
    _exit(42);
}
void vh_assume_false(const char* cond, int line)
{
    fprintf(stderr, "assumption not met: %s (line %d)\n", cond, line);
    _exit(77);
}
static u64 next(void) { if (!loaded) { load(); } u64 v = pos < 65536 ? vals[pos] : 0; ++pos; return v; }
/* inputs the solver's slice did not need are absent from the trace: any allowed value will do */
static u64 next_in(u64 lo) { if (!loaded) { load(); } u64 v = (pos < 65536 && have[pos]) ? vals[pos] : lo; ++pos; return v; }
u64 nd_u64(void) { return next(); }
u32 nd_u32(void) { return (u32)next(); }
u16 nd_u16(void) { return (u16)next(); }
u8  nd_u8(void)  { return (u8)next(); }
int nd_bool(void) { return (int)(next() & 1); }
u64 nd_below(u64 b) { u64 v = next_in(0); VH_ASSUME(v < b); return v; }
u64 nd_range(u64 lo, u64 hi) { u64 v = next_in(lo); VH_ASSUME(v >= lo && v <= hi); return v; }
void nd_bytes(void* p, size_t n) { for (size_t i = 0; i < n; ++i) { ((u8*)p)[i] = nd_u8(); } }
void* vh_block(size_t n)
{
    void* p = malloc(n);
    const char* f = getenv("VH_FILL");
    if (!p) { _exit(78); }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
    return p;
#endif
#endif
    memset(p, f ? atoi(f) : 0xA5, n);
    return p;
}
#endif
