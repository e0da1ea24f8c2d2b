#pragma once
#include <stddef.h>
extern "C" {
void GC_init(void);
void* GC_malloc(size_t);
void* GC_malloc_atomic(size_t);
void GC_free(void*);
}
#define GC_INIT() GC_init()
