/* profile "big", solver only, in front of the sources: memcpy and memmove as entries of a log of block
 * moves (harness/vh_big.c), so that blocks of any size cost nothing. */
#ifdef VH_SOLVER
#include <string.h>
void* vh_big_memcpy(void* d, const void* s, size_t n);
void* vh_big_memmove(void* d, const void* s, size_t n);
#define memcpy vh_big_memcpy
#define memmove vh_big_memmove
#endif
