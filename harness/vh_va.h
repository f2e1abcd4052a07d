/* Force-included in front of Format.c for the solver: argument lists as the x86-64 ABI has them, an
 * array object that the callee of vsnprintf moves forward and that the caller sees moved. (CBMC's own
 * va_list is passed by value, which would hide the use of an argument list that is used up.) */
#ifdef VH_SOLVER
#include <stdarg.h>
typedef struct { int started, used, ended; } vh_va_one;
typedef vh_va_one vh_va[1];
#undef va_start
#undef va_end
#undef va_copy
#undef va_list
#define va_list vh_va
extern int vh_va_open;
#define va_start(ap, last) ((ap)[0].started = 1, (ap)[0].used = 0, (ap)[0].ended = 0, ++vh_va_open, (void)0)
#define va_end(ap)         ((ap)[0].ended = 1, --vh_va_open, (void)0)
#define va_copy(d, s)      ((d)[0] = (s)[0], ++vh_va_open, (void)0)
#define vsnprintf vh_vsnprintf
#include <stddef.h>
int vh_vsnprintf(char* b, size_t n, const char* f, va_list ap);
#else
#define vsnprintf vh_vsnprintf
#endif
