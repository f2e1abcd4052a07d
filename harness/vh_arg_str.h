/* profile "arg", solver only: see vh_arg.h */
#ifdef VH_SOLVER
#include <string.h>
size_t vh_arg_strlen(const char* s);
#define strlen vh_arg_strlen
#endif
