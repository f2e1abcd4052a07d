/* profile "big", in front of String.c: additionally no ZYAN_ASSERT, which would read characters that the
 * log has moved and the memory has not (the small configurations keep the assertions). */
#define NDEBUG
#include "vh_big.h"
