/* profile "sys", in front of the platform wrappers: every system function they may call is a recording
 * stand-in (harness/sys.c), in the solver and in the replay, so nothing of the real system is touched. */
#ifndef VH_SYS_H
#define VH_SYS_H
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/types.h>
int vs_attr_init(pthread_mutexattr_t*); int vs_attr_settype(pthread_mutexattr_t*, int); int vs_attr_destroy(pthread_mutexattr_t*);
int vs_init(pthread_mutex_t*, const pthread_mutexattr_t*); int vs_lock(pthread_mutex_t*); int vs_trylock(pthread_mutex_t*);
int vs_unlock(pthread_mutex_t*); int vs_destroy(pthread_mutex_t*);
pthread_t vs_self(void); int vs_equal(pthread_t, pthread_t);
int vs_key_create(pthread_key_t*, void (*)(void*)); int vs_key_delete(pthread_key_t);
void* vs_getspecific(pthread_key_t); int vs_setspecific(pthread_key_t, const void*);
long vs_sysconf(int); int vs_getpagesize(void); int vs_mprotect(void*, size_t, int); int vs_munmap(void*, size_t); int vs_msync(void*, size_t, int);
int vs_isatty(int);
#ifndef VH_SYS_IMPL
#define pthread_mutexattr_init vs_attr_init
#define pthread_mutexattr_settype vs_attr_settype
#define pthread_mutexattr_destroy vs_attr_destroy
#define pthread_mutex_init vs_init
#define pthread_mutex_lock vs_lock
#define pthread_mutex_trylock vs_trylock
#define pthread_mutex_unlock vs_unlock
#define pthread_mutex_destroy vs_destroy
#define pthread_self vs_self
#define pthread_equal vs_equal
#define pthread_key_create vs_key_create
#define pthread_key_delete vs_key_delete
#define pthread_getspecific vs_getspecific
#define pthread_setspecific vs_setspecific
#define sysconf vs_sysconf
#define getpagesize vs_getpagesize
#define mprotect vs_mprotect
#define munmap vs_munmap
#define msync vs_msync
#define isatty vs_isatty
#endif
#endif
