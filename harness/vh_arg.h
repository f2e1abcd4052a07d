/* profile "arg", solver only, in front of ArgParse.c: cheaper models of what the parser calls.
 * vh_arg_strlen and _strcmp know the end of the harness's strings, whose characters are assumed to be
 * non-zero up to there; vh_arg_memset clears a whole result entry by one assignment; the vector
 * functions follow what V01, V02 and V05 establish for them, with each entry an object of its own. */
#ifdef VH_SOLVER
#include <string.h>
#include <Zycore/Vector.h>
#include "vh_arg_str.h"
int vh_arg_strcmp(const char* a, const char* b);
void* vh_arg_memset(void* p, int c, size_t n);
ZyanStatus vh_arg_emplace(ZyanVector* v, void** element, ZyanMemberFunction ctor);
void* vh_arg_get(const ZyanVector* v, ZyanUSize i);
ZyanStatus vh_arg_getp(const ZyanVector* v, ZyanUSize i, void** p);
ZyanStatus vh_arg_push(ZyanVector* v, const void* element);
#define ZyanVectorPushBack vh_arg_push
#define ZyanVectorEmplace vh_arg_emplace
#define ZyanVectorGet vh_arg_get
#define ZyanVectorGetMutable vh_arg_get
#define ZyanVectorGetPointer(v, i, p) vh_arg_getp(v, i, (void**)(p))
#define ZyanVectorGetPointerMutable vh_arg_getp
#define strcmp vh_arg_strcmp
#define memset vh_arg_memset
#endif
