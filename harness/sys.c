/* Platform wrappers over stand-ins of the system functions: every outcome of every call. */
#define VH_SYS_IMPL
#include "vh.h"
#include "vh_sys.h"
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Thread.h>
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Terminal.h>

/* The harness sets `rc` (the outcome) and then looks at what was called with what. */
static int rc, rc_attr, errno_after;
static unsigned n_ainit, n_adestroy, n_init, n_lock, n_try, n_unlock, n_destroy, n_other;
static pthread_mutexattr_t* attr; static int type, type_at_init, attr_live, attr_live_at_init; static void* mtx;
static void reset(void)
{
    n_ainit = n_adestroy = n_init = n_lock = n_try = n_unlock = n_destroy = n_other = 0;
    attr = 0; type = type_at_init = -1; attr_live = attr_live_at_init = 0; mtx = 0;
}
int vs_attr_init(pthread_mutexattr_t* a) { ++n_ainit; if (rc_attr) { return rc_attr; } attr = a; attr_live = 1; type = PTHREAD_MUTEX_DEFAULT; return 0; }
int vs_attr_settype(pthread_mutexattr_t* a, int t) { if (a == attr && attr_live) { type = t; } return 0; }
int vs_attr_destroy(pthread_mutexattr_t* a) { ++n_adestroy; if (a == attr) { attr_live = 0; } return 0; }
int vs_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { ++n_init; mtx = m; attr_live_at_init = a && a == attr && attr_live; type_at_init = type; return rc; }
int vs_lock(pthread_mutex_t* m) { ++n_lock; mtx = m; return rc; }
int vs_trylock(pthread_mutex_t* m) { ++n_try; mtx = m; return rc; }
int vs_unlock(pthread_mutex_t* m) { ++n_unlock; mtx = m; return rc; }
int vs_destroy(pthread_mutex_t* m) { ++n_destroy; mtx = m; return rc; }
static unsigned calls(void) { return n_init + n_lock + n_try + n_unlock + n_destroy; }
static int outcome(void) { int e = (int)nd_below(200); return e; }

void h_critical(void)
{
    static pthread_mutex_t m[2];
    reset(); rc_attr = outcome(); rc = outcome();
    ZyanStatus s = ZyanCriticalSectionInitialize(&m[1]);
    ZyanStatus w = rc_attr == ENOMEM ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : rc_attr ? ZYAN_STATUS_BAD_SYSTEMCALL
        : rc == EAGAIN ? ZYAN_STATUS_OUT_OF_RESOURCES : rc == ENOMEM ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : rc == EPERM ? ZYAN_STATUS_ACCESS_DENIED
        : rc == EBUSY || rc == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS;
    VP(T02, s == w, "initialisation reports the system's verdict");
    if (rc_attr == 0)
    {
        VP(T02, n_init == 1 && calls() == 1 && mtx == &m[1], "exactly the given mutex is initialised");
        VP(T02, attr_live_at_init && type_at_init == PTHREAD_MUTEX_RECURSIVE, "the mutex is made recursive");
        VP(T02, !attr_live && n_adestroy == 1, "the attributes are given back");
        VH_WITNESS_IF(rc == 0, "initialised");
    } else { VP(T02, calls() == 0, "without attributes no mutex is initialised"); }
    VH_WITNESS_IF(rc_attr == ENOMEM, "no memory for the attributes");

    reset(); rc = outcome();
    s = ZyanCriticalSectionEnter(&m[1]);
    w = rc == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : rc == EAGAIN ? ZYAN_STATUS_INVALID_OPERATION : rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS;
    VP(T02, s == w, "entering reports the system's verdict");
    VP(T02, n_lock == 1 && calls() == 1 && mtx == &m[1], "entering locks exactly the given mutex once");
    VH_WITNESS_IF(rc == EAGAIN, "too many recursions");

    reset(); rc = outcome();
    ZyanBool b = ZyanCriticalSectionTryEnter(&m[1]);
    VP(T02, b == (rc == 0 ? ZYAN_TRUE : ZYAN_FALSE), "trying to enter reports whether it entered");
    VP(T02, n_try == 1 && calls() == 1 && mtx == &m[1], "trying to enter tries exactly the given mutex once");

    reset(); rc = outcome();
    s = ZyanCriticalSectionLeave(&m[1]);
    w = rc == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : rc == EPERM ? ZYAN_STATUS_INVALID_OPERATION : rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS;
    VP(T02, s == w, "leaving reports the system's verdict");
    VP(T02, n_unlock == 1 && calls() == 1 && mtx == &m[1], "leaving unlocks exactly the given mutex once");

    reset(); rc = outcome();
    s = ZyanCriticalSectionDelete(&m[1]);
    w = rc == EBUSY || rc == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS;
    VP(T02, s == w, "deleting reports the system's verdict");
    VP(T02, n_destroy == 1 && calls() == 1 && mtx == &m[1], "deleting destroys exactly the given mutex once");
    VH_WITNESS_IF(rc == 0, "deleted");
}

/* --------------------------------------------------------------- thread-local storage */
static pthread_key_t key_new, key_seen; static void (*dtor_seen)(void*); static const void* data_seen; static void* data_out; static unsigned n_key;
int vs_key_create(pthread_key_t* k, void (*d)(void*)) { ++n_key; dtor_seen = d; if (rc == 0) { *k = key_new; } return rc; }
int vs_key_delete(pthread_key_t k) { ++n_key; key_seen = k; return rc; }
void* vs_getspecific(pthread_key_t k) { ++n_key; key_seen = k; return data_out; }
int vs_setspecific(pthread_key_t k, const void* d) { ++n_key; key_seen = k; data_seen = d; return rc; }
static void dtor(void* p) { (void)p; }
void h_tls(void)
{
    static char obj[8];
    ZyanThreadTlsIndex idx = (ZyanThreadTlsIndex)nd_u32(), old = idx, k = (ZyanThreadTlsIndex)nd_u32();
    int with = nd_bool();
    key_new = (pthread_key_t)nd_u32();
    n_key = 0; rc = outcome();
    ZyanStatus s = ZyanThreadTlsAlloc(&idx, with ? dtor : 0);
    VP(T02, s == (rc == EAGAIN ? ZYAN_STATUS_OUT_OF_RESOURCES : rc == ENOMEM ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS), "allocating an index reports the system's verdict");
    VP(T02, n_key == 1 && dtor_seen == (with ? dtor : 0), "the destructor is passed on");
    VP(T02, idx == (rc ? old : key_new), "the index is the system's, and unchanged on failure");
    VH_WITNESS_IF(rc == 0 && with, "allocated");
    n_key = 0; rc = outcome();
    s = ZyanThreadTlsFree(k);
    VP(T02, s == (rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS) && n_key == 1 && key_seen == k, "freeing passes the index on and reports the verdict");
    n_key = 0; key_seen = ~k;
    u64 o = nd_below(9); int nul = nd_bool(); void* got = obj;
    data_out = nul ? 0 : (void*)(obj + o);
    s = ZyanThreadTlsGetValue(k, &got);
    VP(T02, s == ZYAN_STATUS_SUCCESS && n_key == 1 && key_seen == k && got == data_out, "reading returns the thread's value");
    n_key = 0; key_seen = ~k; rc = outcome(); data_seen = &rc;
    s = ZyanThreadTlsSetValue(k, data_out);
    VP(T02, s == (rc == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS), "writing reports the system's verdict");
    VP(T02, n_key == 1 && key_seen == k && data_seen == data_out, "writing passes index and data on");
    VH_WITNESS_IF(rc == EINVAL && nul, "refused");
}

/* --------------------------------------------------------------- thread identity: threads are told
 * apart by their control blocks, whose first word names the block (the layout of the platform ABI) */
static u64 tcb[2][4]; static unsigned running;
pthread_t vs_self(void) { return (pthread_t)&tcb[running][0]; }
int vs_equal(pthread_t a, pthread_t b) { return a == b; }
void h_thread(void)
{
    ZyanThread h0, h1, h2; ZyanThreadId i0 = 1, i1 = 1, i2 = 1;
    for (unsigned t = 0; t < 2; ++t) { for (unsigned j = 0; j < 4; ++j) { tcb[t][j] = nd_u64(); } }
    VH_ASSUME(tcb[0][0] != tcb[1][0]);
    running = 0;
    ZyanStatus s = ZyanThreadGetCurrentThread(&h0); VP(T04, s == ZYAN_STATUS_SUCCESS, "the thread handle is available");
    s = ZyanThreadGetCurrentThreadId(&i0); VP(T04, s == ZYAN_STATUS_SUCCESS, "the thread id is available");
    running = 1;
    tcb[0][1] = nd_u64();
    ZyanThreadGetCurrentThread(&h1); ZyanThreadGetCurrentThreadId(&i1);
    running = 0;
    tcb[0][2] = nd_u64(); tcb[1][3] = nd_u64();      /* the rest of a control block changes over time */
    ZyanThreadGetCurrentThread(&h2); ZyanThreadGetCurrentThreadId(&i2);
    VP(T04, h0 != h1, "two running threads have different handles");
    VP(T04, i0 != i1, "two running threads have different ids");
    VP(T04, h0 == h2, "a thread's handle stays the same");
    VP(T04, i0 == i2, "a thread's id stays the same");
    VP(T04, h0 == (ZyanThread)&tcb[0][0] && h1 == (ZyanThread)&tcb[1][0], "the handle is the one of the thread library");
    VH_WITNESS_IF((u32)tcb[0][0] == (u32)tcb[1][0], "ids that differ in their upper half only");
    VH_WITNESS_IF((tcb[0][0] >> 16) == (tcb[1][0] >> 16), "ids that differ in their lower half only");
}

/* --------------------------------------------------------------- memory, process, terminal */
static long page; static int name_seen, prot_seen, flags_seen; static void* addr_seen; static size_t size_seen; static unsigned n_prot, n_unmap, n_sync, n_tty, n_conf; static int fd_seen;
long vs_sysconf(int n) { ++n_conf; name_seen = n; return n == _SC_PAGE_SIZE ? page : 7; }
int vs_getpagesize(void) { ++n_conf; return (int)page; }
int vs_mprotect(void* a, size_t n, int p) { ++n_prot; addr_seen = a; size_seen = n; prot_seen = p; errno = errno_after; return rc; }
int vs_munmap(void* a, size_t n) { ++n_unmap; addr_seen = a; size_seen = n; errno = errno_after; return rc; }
int vs_msync(void* a, size_t n, int f) { ++n_sync; addr_seen = a; size_seen = n; flags_seen = f; errno = errno_after; return rc; }
int vs_isatty(int fd) { ++n_tty; fd_seen = fd; if (!rc) { errno = errno_after; } return rc; }
void h_memory(void)
{
    static char obj[8];
    page = (long)nd_range(1, 0x40000000);
    VP(T03, ZyanMemoryGetSystemPageSize() == (u64)page, "the page size is the system's");
    VP(T03, ZyanMemoryGetSystemAllocationGranularity() == (u64)page, "the allocation granularity is the system's");
    void* a = obj + nd_below(9); u64 n = nd_u64(); errno_after = outcome();
    static const ZyanMemoryPageProtection prots[] = { ZYAN_PAGE_READONLY, ZYAN_PAGE_READWRITE, ZYAN_PAGE_EXECUTE, ZYAN_PAGE_EXECUTE_READ, ZYAN_PAGE_EXECUTE_READWRITE };
    static const int want[] = { PROT_READ, PROT_READ | PROT_WRITE, PROT_EXEC, PROT_EXEC | PROT_READ, PROT_EXEC | PROT_READ | PROT_WRITE };
    u64 k = nd_below(5);
    n_prot = n_unmap = n_sync = 0; rc = nd_bool() ? -1 : 0;
    ZyanStatus s = ZyanMemoryVirtualProtect(a, n, prots[k]);
    VP(T03, s == (rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS), "changing the protection reports the system's verdict");
    VP(T03, n_prot == 1 && !n_unmap && !n_sync && addr_seen == a && size_seen == n && prot_seen == want[k], "changing the protection passes address, size and protection on");
    VH_WITNESS_IF(rc && k == 4, "protection refused");
    n_prot = n_unmap = n_sync = 0; rc = nd_bool() ? -1 : 0; addr_seen = 0;
    s = ZyanMemoryVirtualFree(a, n);
    VP(T03, s == (rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS), "freeing reports the system's verdict");
    VP(T03, n_unmap == 1 && !n_prot && !n_sync && addr_seen == a && size_seen == n, "freeing passes address and size on");
    n_prot = n_unmap = n_sync = 0; rc = nd_bool() ? -1 : 0; addr_seen = 0; size_seen = 0;
    s = ZyanProcessFlushInstructionCache(a, n);
    VP(T03, s == (rc ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS), "flushing reports the system's verdict");
    VP(T03, n_sync == 1 && !n_prot && !n_unmap && addr_seen == a && size_seen == n, "flushing passes address and size on");
    VP(T03, (flags_seen & MS_INVALIDATE) && (flags_seen & MS_SYNC) && !(flags_seen & MS_ASYNC), "flushing is synchronous and invalidates");
    VH_WITNESS_IF(!rc && n > 0x100000000ull, "flushed");
}
void h_terminal(void)
{
    static const ZyanStandardStream st[] = { ZYAN_STDSTREAM_IN, ZYAN_STDSTREAM_OUT, ZYAN_STDSTREAM_ERR };
    u64 k = nd_below(3);
    int before = outcome();
    errno_after = (int[]){ EBADF, EINVAL, ENOTTY }[nd_below(3)];
    rc = nd_bool(); n_tty = 0; errno = before;
    ZyanStatus s = ZyanTerminalIsTTY(st[k]);
    VP(T03, n_tty == 1 && fd_seen == (int)k, "exactly the given stream is asked about");
    VP(T03, s == (rc ? ZYAN_STATUS_TRUE : errno_after == EBADF ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_FALSE), "terminal, no terminal and invalid stream are told apart");
    VH_WITNESS_IF(rc && before == EBADF, "a terminal, with an old error");
    s = ZyanTerminalEnableVT100(st[k]);
    VP(T03, s == (k ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT), "VT100 is available on the output streams only");
    VH_WITNESS_IF(!rc && k == 2, "no terminal");
}
