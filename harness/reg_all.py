from registry import H, PROFILES, EXTRA, SAT, SMT, ALL

# ------------------------------------------------------------------------------------- vectors
VEC = ["vector_ops.c", "vh_alloc.c"]


def vec(entry, tag, props, tier="quick", unwind=None, **d):
    cap, es, gf, mc = d.get("CAP", 3), d.get("ES", 2), d.get("GF", 2), d.get("MAXC", 2)
    d.setdefault("VH_MAXBYTES", (cap + mc) * gf * es)
    H("vec_%s_%s" % (entry, tag), VEC, "h_" + entry, props, unwind or d["VH_MAXBYTES"] + 4, d, tier=tier)


for e in ("insert", "delete", "emplace", "set_swap", "resize", "reserve"):
    vec(e, "dyn", "V01 V02 V03 V04 V05 A01" if e != "set_swap" else "V01 V02 V03 A01", CAP=4, ES=2, GF=2, TH=4)
    vec(e, "fix", "V01 V02 V03 V05 A01" if e != "set_swap" else "V01 V02 V03", CAP=3, ES=2, CUSTOM=1)
    vec(e, "dtor", "V04", CAP=3, ES=2, GF=2, TH=2, DTOR=1, FAIL=1)
    if e != "set_swap":
        vec(e, "fail", "V05 A01 V03", CAP=4, ES=2, GF=2, TH=2, FAIL=1)
        vec(e, "g1", "V01 V03 A01", CAP=4, ES=1, GF=1, TH=1)
        vec(e, "g3", "V03", CAP=4, ES=1, GF=3, TH=3)
        vec(e, "noshrink", "V03", CAP=4, ES=1, GF=2, TH=0)
vec("get", "dyn", "V01 V02", CAP=4, ES=3)
vec("null", "dyn", "V02", CAP=2, ES=1)
for es in (1, 2):
    H("vec_find_e%d" % es, ["vector_find.c"], "h_find", "V06 V02", 12, dict(CAP=5 if es == 1 else 4, ES=es))
    H("vec_bsearch_e%d" % es, ["vector_find.c"], "h_bsearch", "V06 V02", 12, dict(CAP=6 if es == 1 else 4, ES=es))
for e, cap in (("foreach", 3), ("foreach_mutable", 5), ("foreach_grow", 2)):
    H("vec_" + e, ["vector_iter.c", "vh_alloc.c"], "h_" + e, "V08", 22 if e == "foreach_grow" else 3 * cap + 2, dict(CAP=cap, VH_MAXBYTES=20))
VMK = ["vector_mk.c", "vh_alloc.c"]
H("vec_init", VMK, "h_init", "V07 A01", 12)
H("vec_init_custom", VMK, "h_init_custom", "V07 V03", 12)
H("vec_init_default", VMK, "h_init_default", "V07", 12)
H("vec_dup", VMK, "h_dup", "V07 A01", 16, dict(VH_MAXBYTES=24))
PROFILES["big"] = {"defs": [], "hdefs": [], "includes": {"Vector.c": "vh_big.h", "String.c": "vh_big_str.h"}}
for es in (1, 8, 24):
    for cu in (0, 1):
        for e in ("insert", "emplace", "delete", "edit", "capacity"):
            if es < 24 or e == "edit":
                H("big_%s_%s%d" % (e, "fix" if cu else "dyn", es), ["vector_big.c"], "h_big_" + e, "V01 V02 V05 V03" if cu else "V01 V02 V05", 8,
                  dict(ES=es, CUSTOM=cu), profile="big", optional=True, note="every growth factor and threshold")
for gf, th in ((1, 1), (2, 4), (3, 0), (255, 255)):
    for e in ("insert", "emplace", "delete", "edit", "capacity"):
        H("big_%s_g%d" % (e, gf), ["vector_big.c"], "h_big_" + e, "V03", 8, dict(ES=1, GF=gf, TH=th), profile="big", optional=True,
          tier="thorough" if gf == 255 and e == "delete" else "quick")
for cu in (0, 1):
    for n_, e, kw in (("append", "sinsert", dict(APP=1)), ("insert", "sinsert", {}), ("remove", "sremove", {})):
        H("big_s%s_%s" % (n_, "fix" if cu else "dyn"), ["string_big.c"], "h_big_" + e, "S01 S02", 8, dict(CUSTOM=cu, **kw), profile="big", optional=True,
          note="every growth factor and threshold", tier="thorough" if n_ == "insert" and not cu else "quick")
H("big_sinsert_g2", ["string_big.c"], "h_big_sinsert", "S01 S02", 8, dict(CUSTOM=0, GF=2, TH=4), profile="big", optional=True)
H("big_bsearch", ["vector_big.c"], "h_big_bsearch", "V06", 6, dict(ES=1), profile="big", optional=True, note="ranges of up to 12 elements anywhere")
# ----------------------------------------------------------------------------------- allocator
PROFILES["heap"] = {"defs": [], "hdefs": [], "include": "vh_heap.h", "sources": ["Allocator.c"]}
for c in (0, 1):
    for e in ("allocate", "reallocate"):
        H("heap_%s_c%d" % (e, c), ["alloc_default.c"], "h_" + e, "A02", 24, dict(CASE=c), profile="heap",
          solvers=SMT, note="one factor from 21 constants, the other any 64-bit value")
H("heap_deallocate", ["alloc_default.c"], "h_deallocate", "A02", 24, dict(CASE=0), profile="heap")
H("heap_init", ["alloc_default.c"], "h_init", "A02", 24, profile="heap")
# ------------------------------------------------------------------------------------- strings
STR = ["string_ops.c", "vh_alloc.c"]


def strh(entry, tag, props, tier="quick", **d):
    d.setdefault("VH_MAXBYTES", (d.get("CAP", 5) + d.get("MAXS", 3)) * d.get("GF", 2))
    H("str_%s_%s" % (entry, tag), STR, "h_" + entry, props, d["VH_MAXBYTES"] + 4, d, tier=tier)


for e in ("append", "insert", "remove", "resize", "char"):
    strh(e, "dyn", "S01 S02 A01", CAP=5, MAXS=3, GF=2, TH=4)
    strh(e, "fix", "S01 S02 A01", CAP=6, MAXS=3, CUSTOM=1, ATEND=0)
    if e != "char":
        strh(e, "fail", "S01 S02 A01", CAP=5, MAXS=3, GF=1, TH=1, FAIL=1)
strh("case", "dyn", "S07", CAP=6)
strh("case", "long", "S07", CAP=20)                       # room for word-wise code
strh("null", "dyn", "S02", CAP=3, MAXS=2)
PREL = ("pointer relation: pointer outside object bounds", "arithmetic overflow on signed - in ")
SVW = ["string_view.c", "vh_alloc.c"]
for ci in (0, 1):
    for r in (0, 1):
        for at in (0, 1):
            H("str_pos%s%s_%s" % ("R" if r else "L", "I" if ci else "", "end" if at else "beg"), SVW, "h_pos", "S05 S04", 12,
              dict(HL=4, NL=3, CI=ci, RIGHT=r, ATEND=at), drop=PREL)
    H("str_cmp%s" % ("I" if ci else ""), SVW, "h_cmp", "S06 S04", 12, dict(HL=3, CI=ci))
    H("str_cmp%s_long" % ("I" if ci else ""), SVW, "h_cmp", "S06", 12, dict(HL=10, CI=ci))
    H("str_pos%s_long" % ("I" if ci else ""), SVW, "h_pos", "S05", 12, dict(HL=6, NL=3, CI=ci, RIGHT=0, ATEND=1), drop=PREL)
    H("str_posR%s_long" % ("I" if ci else ""), SVW, "h_pos", "S05", 12, dict(HL=6, NL=3, CI=ci, RIGHT=1, ATEND=0), drop=PREL)
H("str_view_end", SVW, "h_view", "S04", 12, dict(HL=4, ATEND=1))
H("str_view_beg", SVW, "h_view", "S04", 12, dict(HL=4, ATEND=0))
H("str_view_macro", SVW, "h_view_macro", "S04", 12, dict(HL=4))
H("str_view_null", SVW, "h_view_null", "S04", 12, dict(HL=4))
H("str_mk", SVW, "h_mk", "S03 A01", 20, dict(HL=3, NL=2, VH_MAXBYTES=48))
H("str_mk_default", SVW, "h_mk_default", "S03", 40, dict(HL=3, NL=2))
# ------------------------------------------------------------------------------------ formatting
FMT = ["format.c", "vh_alloc.c"]
PROFILES["fmt"] = {"defs": [], "hdefs": [], "include": "vh_va.h"}


def fmt(name, entry, props, tier="quick", unwind=None, **d):
    solvers, cost = d.pop("solvers", SAT), d.pop("cost", 10)
    d.setdefault("VH_MAXBYTES", 64)
    H("fmt_" + name, FMT, entry, props, unwind or d["VH_MAXBYTES"] + 2, d, tier=tier, profile="fmt", solvers=solvers, cost=cost)


fmt("hexU_wide", "h_num", "F02", HEX=1, CAP=28, N0=1, N0MIN=1, CUSTOM=1, PADMAX=20, VH_MAXBYTES=40)
for neg in (0, 1):
    fmt("hexS_wide_%d" % neg, "h_num", "F02", HEX=1, SGN=1, CAP=24, N0=1, N0MIN=1, CUSTOM=1, PADMAX=0, NEG=neg, PN=1, VH_MAXBYTES=40, unwind=26)
WD = dict(HEX=0, CAP=28, N0=1, N0MIN=1, CUSTOM=1, VH_MAXBYTES=40)
for tag, base, dg, pos, win, tier in (
        ("max", 2**64 - 1000, 20, 0, 3, "quick"), ("1e19", 10**19 - 500, 20, 0, 3, "quick"),
        ("2p63", 2**63 - 500, 19, 0, 3, "quick"), ("2p32", 2**32 - 500, 10, 0, 3, "quick"),
        ("1e9", 10**9 - 500, 10, 0, 3, "quick"), ("1e10", 10**10 - 500, 11, 0, 3, "quick"),
        ("mid4", 5 * 10**18 + 70800300060009, 19, 4, 3, "quick"), ("mid9", 10**19 + 1020304050607, 20, 9, 3, "quick"),
        ("mid14", 10**19 + 90040300060709, 20, 14, 3, "quick")) + tuple(
        ("p%d" % k, 10**k - 500, k + 1, 0, 3, "thorough") for k in (4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18)) + tuple(
        ("q%d" % k, 2**k - 500, len(str(2**k + 499)), 0, 3, "thorough") for k in (16, 31, 33, 48, 53, 62)) + tuple(
        ("m%d" % k, 12345678901234567890 // 10**(k + 4) * 10**(k + 4) + 12345678901234567890 % 10**k, 20, k, 4, "thorough") for k in (1, 3, 6, 8, 11, 13, 15)):
    fmt("decU_win_" + tag, "h_num", "F01", tier=tier, unwind=30, BASE="%dull" % base, DIG=dg, POS=pos, WIN=win, PADMAX=22, **WD)
for tag, base, dg in (("min", 2**63 - 500, 19), ("1e18", 10**18 - 500, 19), ("2p32", 2**32 - 500, 10)):
    fmt("decS_win_" + tag, "h_num", "F01", unwind=30, SGN=1, BASE="%dull" % base, DIG=dg, WIN=3, PADMAX=22, **WD)
fmt("decU_5", "h_num", "F01", tier="thorough", unwind=30, DIG=5, PADMAX=22, **WD)
fmt("decU_6", "h_num", "F01", tier="thorough", unwind=30, DIG=6, PADMAX=0, **WD)
for tag, kw in (("dyn", dict(CAP=4, GF=2, TH=4, VH_MAXBYTES=24)), ("fail", dict(CAP=4, GF=1, TH=1, FAIL=1, VH_MAXBYTES=24))):
    for v, d in ((0, 1), (11, 1), (0xabc, 3), (0xdef01, 5)):
        fmt("hexU_%s_%d" % (tag, d if v else 0), "h_num", "F02", HEX=1, N0=2, VALUE=v, DIG=d, PADMAX=8, **kw)
    kws = dict(kw, VH_MAXBLK=6, CAP=3, VH_MAXBYTES=16, SGN=1, N0=1, PADMAX=4)
    for neg in (0, 1):
        fmt("hexS_%s_%d" % (tag, neg), "h_num", "F02", HEX=1, VALUE=0xab, DIG=2, NEG=neg, **kws)
        fmt("decS_%s_%d" % (tag, neg), "h_num", "F01", HEX=0, VALUE=98, DIG=2, NEG=neg, **kws)
    fmt("decU_" + tag, "h_num", "F01", HEX=0, N0=2, DIG=4, PADMAX=8, **kw)
    fmt("printf_" + tag, "h_fmt", "F03", N0=2, WMAX=7, **kw)
kw = dict(CAP=6, CUSTOM=1, VH_MAXBYTES=24, N0=2)
fmt("hexU_fix", "h_num", "F02", HEX=1, DIG=5, PADMAX=8, **kw)
fmt("hexS_fix", "h_num", "F02", HEX=1, SGN=1, DIG=4, PADMAX=6, **kw)
fmt("decU_fix", "h_num", "F01", HEX=0, DIG=4, PADMAX=8, **kw)
fmt("decS_fix", "h_num", "F01", HEX=0, SGN=1, DIG=4, PADMAX=6, **kw)
fmt("printf_fix", "h_fmt", "F03", WMAX=7, **kw)
for v, cap, tier in ((0, 200, "quick"), (0xab, 264, "quick"), (0, 264, "thorough"), (0xab, 200, "thorough")):
    kw = dict(cost=500, tier=tier, CAP=cap, N0=1, N0MIN=1, CUSTOM=1, PADMAX=255, VH_MAXBYTES=cap, unwind=268, VALUE=v)   # any padding
    fmt("hexU_pad%d_%d" % (cap, v), "h_num", "F02", HEX=1, DIG=2 if v else 1, **kw)
    fmt("decU_pad%d_%d" % (cap, v), "h_num", "F01", HEX=0, DIG=3 if v else 1, **kw)
fmt("null", "h_num_null", "F01")
fmt("nullx", "h_num_null", "F02", HEX=1)
# --------------------------------------------------------------------------------------- bitsets
BIT = ["bitset.c", "vh_alloc.c"]


def bits(name, entry, props, tier="quick", unwind=None, **d):
    d.setdefault("VH_MAXBYTES", 8)
    H("bit_" + name, BIT, entry, props, unwind or 8 * d.get("CAP", 3) + 10, d, tier=tier, opts=("--object-bits", "10"))


for tag, kw in (("dyn", {}), ("fix", dict(CUSTOM=1))):
    bits("bit_" + tag, "h_bit", "B01", **kw)
    bits("query_" + tag, "h_query", "B03", **kw)
    bits("sets_" + tag, "h_sets", "B04", **kw)
    bits("stack_" + tag, "h_stack", "B02 A01", **kw)
    bits("init_" + tag, "h_init", "B01 A01", unwind=20, CAP=2, VH_MAXBLK=2, VH_MAXBYTES=4, **kw)
bits("stack_fail", "h_stack", "B02 A01", CAP=2, FAIL=1, GF=1, TH=1)
bits("init_default", "h_init_default", "B01")
bits("query_long", "h_query", "B03", CAP=9, CUSTOM=1, WIN=1)
bits("sets_long", "h_sets", "B04", CAP=9, CUSTOM=1, WIN=1)
bits("null", "h_null", "B01 B02 B03 B04")
# ----------------------------------------------------------------------------------------- lists
LST = ["list.c", "vh_alloc.c"]


def lst(entry, tag, props, tier="quick", unwind=None, **d):
    es = d.get("ES", 8)
    d.setdefault("VH_MAXBYTES", 16 + es)
    d.setdefault("VH_MAXBLK", 8)
    d.setdefault("VH_LISTBLK", 1)
    H("list_%s_%s" % (entry, tag), LST, "h_" + entry, props, unwind or 26, d, tier=tier, opts=("--object-bits", "12"))


for e in ("push", "emplace", "pop", "remove", "resize", "set"):
    lst(e, "dyn", "L01 A01", ES=2)
    lst(e, "dtor", "L03 A01", unwind=100 if e == "resize" else None, ES=2, DTOR=1, FAIL=1)
    for part in ("1", "2") if e == "resize" else ("",):
        kw = dict(RPART=part, PERMS=3) if part else {}
        if part:
            lst(e, "fixp" + part, "L01 L02", tier="thorough", FIX=1, ES=4, RPART=part)
        lst(e, "fix" + part, "L01 L02", FIX=1, ES=4, **kw)
        lst(e, "fixd" + part, "L03", FIX=1, DTOR=1, ES=1, **kw)
    if e in ("push", "emplace"):
        lst(e, "fixs", "L02", FIX=1, ES=3, SLACK=18)
lst("init", "all", "L01 L02 A01")
lst("null", "all", "L01")
# --------------------------------------------------------------------------------- command lines
PROFILES["arg"] = {"defs": [], "hdefs": [], "includes": {"ArgParse.c": "vh_arg.h", "String.c": "vh_arg_str.h"}}


def arg(name, props="P01 P02 P03", tier="quick", **d):
    nt, tl = d.setdefault("NT", 2), d.setdefault("TL", 3)
    H("arg_" + name, ["argparse.c"], d.pop("entry", "h_parse"), props, max(6, nt + 2, nt * (tl - 1) + 1), d, tier=tier, profile="arg",
      unwindset=["h_parse.%d:%d" % (i, (tl + 1) ** nt + 1) for i in range(3)] + ["h_defs.0:17"], cost=500 if name == "defs" else d.get("K0", 0) * (d.get("ONLY", 0) + 1))


arg("parse_00", K0=0, K1=0)
for k0, k1 in ((2, 2), (2, 3), (3, 3)):
    for c in range(16):                      # lengths of the two tokens, each 0 to 3
        arg("parse_%d%d_%d%d" % (k0, k1, c % 4, c // 4), K0=k0, K1=k1, ONLY=c)
for k0, k1 in ((2, 2), (2, 3)):
    for c in range(27):                      # three tokens of 0 to 2 characters
        arg("three_%d%d_%d%d%d" % (k0, k1, c % 3, c // 3 % 3, c // 9), tier="quick" if k1 == 2 and (c in (25, 26) or (c % 3 < 2 and c // 3 % 3 < 2)) else "thorough", NT=3, TL=2, K0=k0, K1=k1, ONLY=c)
for pre, name in enumerate(("x", "-", "--")):    # a fixed first token of length 1, 1 or 2
    for a, b in ((2, 3), (3, 2), (3, 3)):
        arg("after%d_23_%d%d" % (pre, a, b), tier="quick" if pre == 2 or (pre, a, b) == (0, 3, 3) else "thorough", NT=3, K0=2, K1=3, PRE='"%s"' % name, ONLY=len(name) + 4 * a + 16 * b)
for k2 in (2, 3):                            # three definitions
    for a, b in ((2, 2), (2, 0), (3, 2), (2, 3)):
        arg("trio_%d_%d%d" % (k2, a, b), tier="quick" if (a, b) == (2, 2) else "thorough", K0=2, K1=3, K2=k2, ONLY=a + 4 * b)
arg("defs", entry="h_defs", NT=1)
for c in range(4):
    arg("noargs_%d" % c, K0=0, K1=0, NOARGS=1, NT=1, ONLY=c)
    arg("default_%d" % c, K0=2, K1=0, DFLT=1, NT=1, ONLY=c)
for k0, k1 in ((2, 0), (2, 2), (2, 4), (4, 3)):
    for c in range(2, 5):
        arg("one_%d%d_%d" % (k0, k1, c), K0=k0, K1=k1, NT=1, TL=4, ONLY=c)
for k in (2, 3):
    arg("fail_%d" % k, "P03", K0=2, K1=0, NT=1, TL=k, FAIL=1, ONLY=k)
    arg("fail_%d%d" % (k, k), "P03", K0=2, K1=0, NT=2, TL=k, FAIL=1, ONLY=(k + 1) * k + k)
# ------------------------------------------------------------------------- header-only helpers
for e in ("cmp", "cmp_field", "cmp_ptr"):
    H(e, ["misc.c"], "h_" + e, "C01", 4)
for b in (32, 64):
    H("align%d" % b, ["misc.c"], "h_align", "C02", 4, dict(BITS=b))
for e in ("arith", "pow2", "status", "version"):
    H(e, ["misc.c"], "h_" + e, "C02", 66)
# ----------------------------------------------------------------------- replacements for libc
PROFILES["nolibc"] = {"defs": ["-DZYAN_NO_LIBC"], "hdefs": ["-DZYAN_NO_LIBC"], "libc": False}
for e in ("len", "cmp", "strncmp_cut", "span", "str", "cpy", "xfrm", "cat", "mem", "move"):
    H("nl_" + e, ["nolibc.c"], "h_nl_" + e, "N01", 12, profile="nolibc")
    H("nl_big_" + e, ["nolibc.c"], "h_nl_" + e, "N01", 20, dict(N=8), profile="nolibc", tier="thorough")
for e in ("len", "cmp", "strncmp_cut", "cpy", "mem", "move"):
    H("nl_long_" + e, ["nolibc.c"], "h_nl_" + e, "N01", 26, dict(N=11), profile="nolibc")
H("nl_tok", ["nolibc.c"], "h_nl_tok", "N01", 12, dict(N=4), profile="nolibc")
H("nl_big_tok", ["nolibc.c"], "h_nl_tok", "N01", 12, dict(N=5), profile="nolibc", tier="thorough")
# ----------------------------------------------------------------------------- platform layer
PROFILES["sys"] = {"defs": [], "hdefs": [], "include": "vh_sys.h"}
for e, p in (("critical", "T02"), ("tls", "T02"), ("thread", "T04"), ("memory", "T03"), ("terminal", "T03")):
    H("sys_" + e, ["sys.c"], "h_" + e, p, 5, profile="sys")
PROFILES["atomic"] = {"defs": [], "hdefs": ["-include", "vh_atomic.h"]}
H("atomic", ["atomic.c"], "h_atomic", "T01", 3, profile="atomic")
CONC = ("--no-pointer-check", "--no-pointer-primitive-check", "--no-bounds-check")   # decided by "atomic"
for w in (32, 64, 0):
    for a, b in ((0, 0), (0, 1), (1, 1), (2, 2), (0, 2), (1, 2)):
        H("atomic_two_%d_%d%d" % (w, a, b), ["atomic.c"], "h_atomic_two", "T01", 3, dict(W=w, OPA=a, OPB=b), profile="atomic", replay_timeout=60, opts=CONC)
        if a < 2 and b < 2:
            H("atomic_sum_%d_%d%d" % (w, a, b), ["atomic.c"], "h_atomic_sum", "T01", 3, dict(W=w, OPA=a, OPB=b), profile="atomic", replay_timeout=60, opts=CONC)
