/* profile "heap": the libc heap functions called by the library are the recording stand-ins below */
#ifndef VH_HEAP_H
#define VH_HEAP_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
void* vh_h_malloc(size_t n);
void* vh_h_calloc(size_t a, size_t n);
void* vh_h_realloc(void* p, size_t n);
void  vh_h_free(void* p);
#define malloc vh_h_malloc
#define calloc vh_h_calloc
#define realloc vh_h_realloc
#define free vh_h_free
#endif
